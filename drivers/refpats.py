"""Reference patterns of random object graphs."""
import gc, re, sys
from tracelib import main_traces
from world import World, use, world, change

ROW = re.compile(r'\s*(\d+): (\S+) [ -]*\[(\^ ?\d+|[RS+-])\] (\d+) ?')


def place(name):
    """The positions a row's name stands for."""
    if name == '_':
        return []
    out = []
    for c, k in re.findall(r'([^0-9])(\d*)', name):
        out += [ord(c) - 97] * (int(k) if k else 1)
    return out


def names(rng, ix):
    """A way to write the name of the row at a place."""
    if not ix:
        return '_'
    s = ''.join(chr(97 + i) for i in ix)
    if rng.random() < .5:
        return s
    return re.sub(r'(.)\1*', lambda m: m.group(1) + (str(len(m.group())) if len(m.group()) > 2 or
                                                      rng.random() < .2 else m.group()[1:]), s)


def rows(text):
    out = []
    lines = text.split('\n')
    if lines[0].startswith('Reference Pattern by <'):
        del lines[0]
    for line in lines:
        if line.startswith('<') or not line:
            break
        m = ROW.match(line)
        if not m:
            return [[-1, [], '', -1, -1]]
        k = m.group(3)
        out.append([int(m.group(1)), place(m.group(2)), k[0], int(k[1:]) if k[0] == '^' else -1, int(m.group(4))])
    return out


def ids(w, s):
    return sorted(w.num.get(id(x), 0) for x in s.nodes)


def pattern(w, hp, rng):
    S = sorted(set(w.some(1, 2)))
    s = hp.iso(*[w.o(n) for n in S])
    er = rng.choice(['Clodo', 'Clodo', 'Type', 'Type', 'Size', 'Id', 'Unity', 'Module'])
    how = rng.choice(['referrers'] * 5 + ['imdom', 'referents'])
    depth = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 7, None])
    nocyc = rng.random() < .25
    cells = {n: hp.iso(w.o(n)) for n in range(1, len(w.obj) + 1)}
    kinds = {}
    cls = [kinds.setdefault(cells[n].by(getattr(hp, er)).kind, len(kinds)) for n in cells]
    size = [cells[n].size for n in cells]
    stop = None
    if rng.random() < .4:
        for n in w.some(1, 2):
            k = cells[n].by(getattr(hp, rng.choice([er, 'Type', 'Clodo']))).kind
            stop = k if stop is None else stop | k
    stopkind = hp._parent.RefPat.stopkind if stop is None else stop
    stops = [int(cells[n] <= stopkind) for n in cells]
    kw = dict(depth=depth)
    if er != 'Clodo' or rng.random() < .5:
        kw['er'] = getattr(hp, er)
    if how == 'imdom':
        kw.update(rng.choice([dict(imdom=1), dict(ref='imdom')]))
    elif how == 'referents':
        own = hp.iso(*w.obj)
        kw['ref'] = lambda X: X.referents & own
    if stop is not None:
        kw['stopkind'] = stop
    if nocyc:
        kw['nocyc'] = True
    if not kw.get('depth', 1):
        pass
    make = lambda: s.get_rp(**kw)
    if kw == dict(depth=None) and rng.random() < .5:
        make = lambda: s.rp
    # All lines, as shown by a twin
    twin = make()
    out = []
    page = twin
    while 1:
        rs = rows(str(page))
        k = len(out)
        for r in rs:
            out.append([r[1], r[2], r[3], ids(w, twin[r[0]]) if r[0] == len(out) else [0]])
        if len(out) > 90:
            return None
        if len(out) == k or 'for more.>' not in str(page):
            break
        page = page.more
    w.emit('pattern', [S, 7 if depth is None else depth, how, int(nocyc), stops, cls, size], out)
    return make(), out


def ask(w, rng, p, rp, L):
    n = len(L)
    q = rng.choice(['line', 'line', 'name', 'name', 'len', 'iter', 'show', 'show', 'reset'])
    w.odd = None
    if q == 'line':
        i = rng.choice([rng.randrange(n), rng.randrange(n), rng.randrange(-n, n), n, -n - 1, n + 3])
        def f():
            try:
                return ids(w, rp[i])
            except IndexError:
                return [-1]
        w.emit('line', [p, i], f())
    elif q == 'name':
        ix = list(rng.choice(L)[0])
        x = rng.random()
        if x < .15:
            ix.append(rng.randrange(3))
        elif x < .25 and ix:
            ix[-1] += 1
        if max(ix + [0]) > 25:
            return
        name = names(rng, ix)
        if name in ('bf', 'lg', 'er', 'all', 'set', 'top', 'mod', 'kind', 'help', 'more', 'prev', 'depth', 'lines',
                    'paths', 'reset', 'index'):
            return
        def f():
            try:
                return ids(w, getattr(rp, name))
            except AttributeError:
                return [-1]
        w.emit('name', [p, ix], f())
    elif q == 'len':
        w.emit('len', [p], len(rp))
    elif q == 'iter':
        k = rng.randint(0, n + 1)
        out = []
        for x in rp if k else ():
            out.append(ids(w, x))
            if len(out) == k:
                break
        w.emit('iter', [p, k], out)
    elif q == 'show':
        page = rp
        t = str(page)
        for _ in range(rng.randint(0, 3)):
            if 'for more.>' not in t:
                break
            page = page.more
            t = str(page)
        w.emit('show', [p], rows(t))
    else:
        rp.reset()
        w.emit('reset', [p])


def patterns(rng, i):
    hp = use()
    w = world(rng, hp, lo=2, hi=7, links=rng.choice([10, 18]))
    for _ in range(rng.choice([0, 3, 10])):
        w.link(s=w.pick('L', 'LS', 'D', 'DS', 'S', 'U', 'I', 'KD'))
    for _ in range(rng.choice([1, 4])):
        w.link(1)
    w.settle()
    gc.collect()
    w.emit('gc', [])
    k = 0
    for _ in range(rng.randint(1, 3)):
        x = pattern(w, hp, rng)
        if x:
            k += 1
            for _ in range(rng.randint(2, 9)):
                ask(w, rng, k, *x)
        if rng.random() < .7:
            for _ in range(rng.randint(1, 3)):
                change(w, hp, rng)
            w.settle()
            gc.collect()
            w.emit('gc', [])
    return dict(ev=w.ev, kinds=w.kind)


if __name__ == '__main__':
    gc.disable()
    main_traces(globals()[sys.argv[1]], sys.argv[2:])
