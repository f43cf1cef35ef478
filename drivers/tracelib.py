"""Helpers shared by the drivers (run under the repository's interpreter)."""
import json, os, sys, random

def main_traces(gen, argv):
    """argv: seed first count out.  gen(rng, index) -> trace dict.  The
    index being worked on is kept in <out>.cur so that a crash of the
    interpreter can be attributed."""
    seed, first, count, out = int(argv[0]), int(argv[1]), int(argv[2]), argv[3]
    res = []
    for i in range(first, first + count):
        with open(out + '.cur', 'w') as f:
            f.write(str(i))
        rng = random.Random(seed * 1000003 + i)
        t = gen(rng, i)
        if t is not None:
            t['i'] = i
            res.append(t)
    with open(out, 'w') as f:
        json.dump(res, f, separators=(',', ':'))

class CurLog:
    """Appends the call about to be made, so that a crash shows it."""
    def __init__(self, fn):
        self.f = open(fn, 'w')
    def __call__(self, *a):
        self.f.seek(0); self.f.truncate()
        self.f.write(repr(a)); self.f.flush()

def exc_name(e):
    return type(e).__name__
