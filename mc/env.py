"""Bootstrap: controlled randomness first, then d42 from /repo's working tree."""
import os
import sys

REPO = os.environ.get("D42_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/d42-mc"   # never read stale bytecode of /repo
sys.path.insert(0, REPO)
sys.setrecursionlimit(1000)

from . import rng  # noqa: E402

if os.environ.get("MC_REAL_RANDOM") != "1":
    rng.install()

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import d42  # noqa: E402

assert os.path.realpath(d42.__file__).startswith(os.path.realpath(REPO) + os.sep), d42.__file__
