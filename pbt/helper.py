"""Runs analyses in a process restricted to some CPUs: python -m pbt.helper NCPU (pickles on stdin and stdout)."""

import os
import pickle
import struct
import sys


def recv(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    n = struct.unpack("<Q", h)[0]
    return pickle.loads(f.read(n))


def send(f, x):
    s = pickle.dumps(x)
    f.write(struct.pack("<Q", len(s)) + s)
    f.flush()


def main():
    n = int(sys.argv[1])
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, set(cpus[:n]))
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    import warnings

    warnings.simplefilter("ignore")
    import freud
    from pbt.checks import analyses

    while True:
        m = recv(sys.stdin.buffer)
        if m is None:
            return
        name, inp, threads = m
        try:
            freud.parallel.set_num_threads(threads)
            send(out, ("ok", analyses.ALL[name].run(inp)))
        except BaseException as e:  # reported to the parent
            send(out, ("error", f"{type(e).__name__}: {e}"))


class Remote:
    """A helper process, started on first use."""

    def __init__(self, ncpu):
        self.ncpu, self.p = ncpu, None

    def run(self, name, inp, threads=None):
        import subprocess

        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([sys.executable, "-m", "pbt.helper", str(self.ncpu)], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, cwd=os.path.dirname(os.path.dirname(__file__)))
        try:
            send(self.p.stdin, (name, inp, threads))
            r = recv(self.p.stdout)
        except BrokenPipeError:
            r = None
        if r is None:
            return ("crash", self.p.wait())
        return r


if __name__ == "__main__":
    main()
