"""Warms the build cache: builds the harness once."""
import os, shutil, sys, tempfile
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
import check
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build(tmp, False)
    check.build(tmp, False, True)
    print("harness builds")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
