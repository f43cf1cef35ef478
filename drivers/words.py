"""Words under equations (KnuthBendix) and combinations (IterPermute)."""
import itertools, signal, sys
from tracelib import main_traces
from guppy import Root

NAMES = ['a', 'b', 'c', 'A', '.', '*', '\\', ' ', '1', 'é', '[', '^']
LONG = ['a', 'b', 'ab', 'ba', 'aa', 'f', 'g_arrow', '*', '[', 'x y', 'é', '0']


class Slow(Exception):
    pass


def slow(*a):
    raise Slow


def rules(rng, i):
    kb = Root().guppy.etc.KnuthBendix.kb
    k = rng.choice([1, 2, 2, 2, 2, 3])
    delim = rng.choice(['', '', '', '.', '->', '/', ' . '])
    letters = rng.sample(LONG if delim else NAMES, k)
    if delim == '.':
        letters = [x.replace('.', ':') for x in letters]
    num = {x: n + 1 for n, x in enumerate(letters)}
    word = lambda n: [rng.randint(1, k) for _ in range(n)]
    side = rng.choice([1, 2, 3, 3, 4])
    eqs = [[word(rng.randint(0, side)), word(rng.randint(0, side))] for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    if rng.random() < .3:
        # a group: every letter has an inverse
        eqs += [[[n] * rng.choice([2, 2, 3]), []] for n in range(1, k + 1) if rng.random() < .7]
    if rng.random() < .15:
        eqs.append(list(rng.choice(eqs)))
    if rng.random() < .2:
        eqs.append([eqs[0][0], word(rng.randint(0, side))])
    rng.shuffle(eqs)

    def text(w):
        s = delim.join(letters[n - 1] for n in w)
        if delim and rng.random() < .2:
            s = delim + s
        if delim and s != delim and rng.random() < .2:
            s = s + delim
        return s

    def back(s):
        if not s:
            return []
        return [num.get(x, 0) for x in (s.split(delim) if delim else s)]

    E = [(text(a), text(b)) for a, b in eqs]
    kw = dict(delim=delim) if delim or rng.random() < .3 else {}
    ev = []
    signal.setitimer(signal.ITIMER_REAL, 1.5)
    try:
        try:
            A = kb(E, **kw) if rng.random() < .2 else kb(E, max_iterations=rng.choice([12, 20]), **kw)
            r = 1
        except ValueError:
            r = 0
        a = [k, eqs, [len(x) + len(delim) for x in letters]]
        ev.append(dict(o='rules', a=a, r=r))
        if r:
            words = [list(w) for n in range({1: 10, 2: 6, 3: 4}[k]) for w in itertools.product(range(1, k + 1), repeat=n)]
            words.append(word(9))
            words.append(word(12))
            forms = [back(A.reduce(text(w))) for w in words]
            known = {tuple(w) for w in words}
            for f in list(forms):
                if tuple(f) not in known:
                    known.add(tuple(f))
                    words.append(f)
                    forms.append(back(A.reduce(text(f))))
            seen = {}
            for w, f in zip(words, forms):
                seen.setdefault(tuple(w), f)
            ev.append(dict(o='reduce', a=[list(w) for w in seen], r=list(seen.values())))
            for _ in range(8):
                x, y = rng.choice(words), rng.choice(words)
                if rng.random() < .4:
                    y = rng.choice([w for w, f in zip(words, forms) if f == seen[tuple(x)]])
                ev.append(dict(o='same', a=[x, y], r=int(bool(A(text(x), text(y))))))
    except Slow:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(ev=ev)


class Item:
    """Items are told apart by what they are, whatever they are equal to."""
    def __init__(self, arg, ix):
        self.at = arg, ix

    def __eq__(self, other):
        return True

    __hash__ = None


def source(rng, arg, n):
    items = [Item(arg, j + 1) for j in range(n)]
    return rng.choice([list, tuple, iter, lambda x: (y for y in x), lambda x: map(lambda y: y, x)])(items)


def endless(arg):
    return (Item(arg, j + 1) for j in itertools.count())


def perms(rng, i):
    f = Root().guppy.etc.iterpermute
    ev = []

    def ix(t):
        return [x.at[1] if isinstance(x, Item) and x.at[0] == p else 0 for p, x in enumerate(t)] \
            if isinstance(t, tuple) else [-1]
    for _ in range(5):
        while 1:
            n = [rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 12]) for _ in range(rng.choice([0, 1, 2, 2, 2, 3, 3, 4]))]
            t = 1
            for x in n:
                t *= x
            if t <= 150:
                break
        if rng.random() < .7:
            r = []
            for t in f(*[source(rng, p, x) for p, x in enumerate(n)]):
                r.append(ix(t))
                if len(r) > 400:
                    break
            ev.append(dict(o='perm', a=n, r=r))
        else:
            n = [x or 1 for x in n] + [-1]
            rng.shuffle(n)
            k = rng.randint(0, 20)
            r = [ix(t) for t in itertools.islice(f(*[endless(p) if x == -1 else source(rng, p, x)
                                                     for p, x in enumerate(n)]), k)]
            ev.append(dict(o='first', a=[n, k], r=r))
    return dict(ev=ev)


if __name__ == '__main__':
    signal.signal(signal.SIGALRM, slow)
    main_traces(dict(rules=rules, perms=perms)[sys.argv[1]], sys.argv[2:])
