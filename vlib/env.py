"""Imports the code under observation from the repository's working tree.

No byte code is read from or written to the repository: the pycache prefix
points at a directory that does not exist, so every run compiles the current
sources.
"""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"

REPO = os.environ.get("REPARSEC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, SRC)

import reparsec  # noqa: E402

if not os.path.abspath(reparsec.__file__).startswith(
        os.path.abspath(SRC) + os.sep):
    raise SystemExit("reparsec imported from {}, not from {}".format(
        reparsec.__file__, SRC))

from reparsec import lexer, layout, primitive, scannerless, sequence  # noqa
