"""Bootstrap: make `import rocketry` resolve to the current working tree of /repo."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import logging
    logging.raiseExceptions = False


def import_rocketry():
    setup()
    import rocketry
    where = os.path.realpath(os.path.dirname(rocketry.__file__))
    want = os.path.realpath(os.path.join(REPO, "rocketry"))
    if where != want:
        raise RuntimeError(f"rocketry imported from {where}, not from {want}")
    return rocketry


def in_repo_traceback(exc):
    """Does the innermost non-stdlib frame of the traceback lie in the code under test?"""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "/") or fn.startswith(VERIF + "/"):
            last = fn
        tb = tb.tb_next
    return bool(last) and last.startswith(REPO + "/")
