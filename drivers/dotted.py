"""Trees and texts in the dotted syntax."""
import os, sys, tempfile
from tracelib import main_traces
from guppy import Root

ALPHA = ['.', '\\', ' ', 'a', 'b', '*', '=', ':', '\t', 'é', '\r', '\u2028', '\x0c', '#']


class World:
    def __init__(self, rng):
        self.rng = rng
        self.dt = Root().guppy.gsl.DottedTree
        self.dot = '.'
        if rng.random() < .25:
            self.dot = self.dt.dotchar = rng.choice(['*', '=', '#', ' ', 'é'])
        self.chars = rng.choice([3, 4, 5, len(ALPHA)])

    def num(self, line):
        return [1 if c == self.dot else 2 if c == '\\' else 3 + ALPHA.index(c) for c in line]

    def lines(self, text):
        return [self.num(x) for x in text.split('\n')] if text else []

    def tag(self, text):
        return [self.num(x) for x in text.split('\n')]

    def line(self):
        rng = self.rng
        s = ''.join(rng.choice(['\\', self.dot, rng.choice(ALPHA[:self.chars])])
                    for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 6])))
        if rng.random() < .2:
            s = '\\' * rng.randint(0, 4) + self.dot * rng.randint(0, 2) + s
        return s

    def text(self):
        return '\n'.join(self.line() for _ in range(self.rng.choice([1, 1, 1, 1, 2, 2, 3])))

    def tree(self, depth, width):
        kids = self.rng.randint(0, width) if depth else 0
        return (self.text(),) + tuple(self.tree(depth - 1, width) for _ in range(kids))

    def flat(self, t, d=0, indexed=False):
        n = [dict(d=d, t=self.tag(t[0]))]
        for c in t[1:]:
            n += self.flat(c, d + 1)
        return n

    def flatn(self, t, d=0):
        n = [dict(d=d, t=self.tag(t.tag), n=t.index)]
        for c in t.children:
            n += self.flatn(c, d + 1)
        return n


class Complaint(Exception):
    pass


class Source:
    def error(self, msg, index, *rest, **kw):
        raise Complaint(index)


def read(w, text, src=None):
    """By one of the ways to read a text."""
    how = w.rng.random()
    if how < .2:
        return w.dt.parse_lines((text.split('\n') if text else []), src)
    if how < .3 and '\r' not in text:
        fd, name = tempfile.mkstemp()
        try:
            with os.fdopen(fd, 'w', encoding=None, newline='') as f:
                f.write(text)
            return w.dt.parse_file(name, src)
        finally:
            os.unlink(name)
    return w.dt.parse_string(text, src)


def ask(w, text):
    rng, dt = w.rng, w.dt
    a = w.lines(text)
    if rng.random() < .5:
        dt.node = dt.node_sexpr
        try:
            return dict(o='plain', a=a, r=w.flat(read(w, text)), x=-1)
        except SyntaxError:
            return dict(o='plain', a=a, r=[], x=-2)
    dt.node = dt.node_node
    try:
        return dict(o='parse', a=a, r=w.flatn(read(w, text, Source())), x=-1)
    except Complaint as e:
        return dict(o='parse', a=a, r=[], x=e.args[0])


def trees(rng, i):
    w = World(rng)
    dt = w.dt
    ev = []
    for _ in range(6):
        if rng.random() < .6:
            t = w.tree(rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 2, 3]))
            a = w.flat(t)
            if rng.random() < .5:
                s = dt.unparse_sexpr(t)
            else:
                s = dt.unparse_node(mk(dt, t))
            ev.append(dict(o='unparse', a=a, r=w.lines(s), x=-1))
            ev.append(ask(w, s))
            # what is read back is the tree
            ev.append(dict(o='unparse', a=ev[-1]['r'] and [dict(d=n['d'], t=n['t']) for n in ev[-1]['r']],
                           r=w.lines(s), x=-1))
        else:
            n = rng.randint(0, 7)
            level, ls = 0, []
            for _ in range(n):
                level = rng.choice([0, 0, level, level, max(1, level - 1), level + 1,
                                    level + (2 if rng.random() < .1 else 1)])
                ls.append(w.dot * level + w.line())
            ev.append(ask(w, '\n'.join(ls)))
    return dict(ev=ev)


def mk(dt, t):
    return dt.node_node(t[0], [mk(dt, c) for c in t[1:]], 0)


if __name__ == '__main__':
    main_traces(dict(trees=trees)[sys.argv[1]], sys.argv[2:])
