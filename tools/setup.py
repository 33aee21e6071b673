#!/usr/bin/env python3
"""setup_cmd: everything is compiled by the checks from /repo's working tree, so setting up only
confirms that the compilers build and run the engine here."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402

work = tempfile.mkdtemp(prefix="verif_setup_")
try:
    check.toolchain_probe(work)
    print("the toolchain builds the engine")
except check.Broken as b:
    print(b, file=sys.stderr)
    sys.exit(1)
finally:
    shutil.rmtree(work, ignore_errors=True)
