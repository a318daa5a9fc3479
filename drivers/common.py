"""helpers of the drivers (run by the interpreter that has pkm's dependencies)"""
import contextlib
import json
import os
import random
import signal
import sys
import time

SEED = os.environ.get("VERIF_SEED", "1")


def rng(salt):
    return random.Random(f"{SEED}-{salt}")


class CaseTimeout(BaseException):
    ...


@contextlib.contextmanager
def time_limit(seconds):
    def handler(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def silent():
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        yield


def err_name(e):
    return "timeout" if isinstance(e, CaseTimeout) else type(e).__name__


def main(fn):
    """fn(records) -> iterable of output records"""
    sys.setrecursionlimit(10000)
    with open(sys.argv[1]) as f:
        recs = [json.loads(ln) for ln in f if ln.strip()]
    with open(sys.argv[2], "w") as out:
        for r in fn(recs):
            out.write(json.dumps(r) + "\n")
            out.flush()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
