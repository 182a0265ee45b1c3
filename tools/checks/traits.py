"""Trait descriptors (C10) and trait sets (C11)."""
import random
from concurrent.futures import ThreadPoolExecutor
from mbt import *

# A group: a trait number, ('u', traits) compatible traits, ('a', members) alternatives
DOC = [1, ('a', [('u', [2, 3]), ('u', [2, 4])])]
LAYOUTS = [
    DOC,
    [('a', [1, 2, 3]), ('a', [4, ('u', [5, 6])])],
    [('u', [1, 2]), ('a', [('u', [3, 4]), ('u', [4, 5]), ('u', [5, 3])]), 6],
    [('a', [('u', [1, 2, 3]), ('u', [3, 4]), 5])],
    [1, 2, 3, 4],
    [('a', [1, 2]), 3, ('a', [4, 5])],
]


def groups(layout):
    """As the specification sees it: every group a list of alternatives."""
    r = []
    for g in layout:
        if isinstance(g, int):
            r.append([[g]])
        elif g[0] == 'u':
            r.append([list(g[1])])
        else:
            r.append([[m] if isinstance(m, int) else list(m[1]) for m in g[1]])
    return r


def cxx(layout):
    def one(g):
        if isinstance(g, int):
            return 'Tr<%d>' % g
        n = 'TraitUnion' if g[0] == 'u' else 'TraitAlternative'
        return 'bcl::%s<%s>' % (n, ','.join(one(x) for x in g[1]))
    return ','.join(one(g) for g in layout)


def small(layout, rng):
    """A layout with some of the groups or alternatives, in another order."""
    r = []
    for g in layout:
        if not isinstance(g, int) and g[0] == 'a' and len(g[1]) > 2 and rng.random() < .5:
            # the remaining traits must conflict as before
            keep = g[1][:2]
            left = set()
            for m in keep:
                left |= {m} if isinstance(m, int) else set(m[1])
            drop = g[1][2:]
            if any(len(set(m[1] if not isinstance(m, int) else [m]) & left) > 1 for m in drop):
                keep = g[1]
            r.append(('a', keep))
        elif rng.random() < .7:
            r.append(g)
    if not r:
        r = [layout[0]]
    rng.shuffle(r)
    return r


def random_layout(rng, n, most=4):
    ts = list(range(1, n + 1))
    rng.shuffle(ts)
    r = []
    while ts:
        k = rng.choice([1, 1, 2, 3, most])
        part, ts = ts[:k], ts[k:]
        if len(part) == 1:
            r.append(part[0])
        elif rng.random() < .25:
            r.append(('u', part))
        else:
            mem, rest = [], list(part)
            while rest:
                m = rng.choice([1, 2])
                x, rest = rest[:m], rest[m:]
                if rng.random() < .4:
                    y = rng.choice(part)
                    if y not in x:
                        x = x + [y]
                mem.append(x[0] if len(x) == 1 and rng.random() < .8 else ('u', x))
            r.append(('a', mem))
    return r


def count(layout):
    return len({t for g in groups(layout) for a in g for t in a})


def lists(n, rng):
    """Lists of several traits a program may name at once."""
    r = [[a, b] for a in range(1, n + 1) for b in range(1, n + 1)] if n <= 6 else \
        [[rng.randint(1, n), rng.randint(1, n)] for _ in range(16)]
    for k in (3, 3, 3, 3, 4, 4, 4, 5, 5, 6, 8):
        if k <= n + 2:
            r.append([rng.randint(1, n) for _ in range(k)])
            r.append(rng.sample(range(1, n + 1), min(k, n)))
    return [list(x) for x in sorted({tuple(x) for x in r})]


class Lay:
    def __init__(self, c, k, layout, sm, rng):
        self.c, self.k, self.layout, self.sm = c, k, layout, sm
        self.n = count(layout)
        self.M = lists(self.n, rng)
        self.L, self.S = groups(layout), groups(sm)

    def build(self):
        c = self.c
        head = '"L":%s,"S":%s' % (json.dumps(self.L), json.dumps(self.S))
        c.write('lay%d.h' % self.k, '#pragma once\n#define LAYOUT %s\n#define SMALL %s\n#define NTRAITS %d\n#define TUPLES %s\n'
                '#define HEADER R"(%s)"\n' % (cxx(self.layout), cxx(self.sm), self.n,
                ','.join('std::integer_sequence<int,%s>' % ','.join(map(str, m)) for m in self.M), head))
        self.exe = c.compile('traits%d' % self.k, ['traits.cpp'],
                             flags=['-include', c.path('lay%d.h' % self.k), '-include', 'memory', '-include', 'cassert'],
                             opt='-O0', san=self.n <= 8)
        return self

    def file(self):
        f = self.c.path('lay%d.json' % self.k)
        open(f, 'w').write(json.dumps({'L': self.L, 'S': self.S, 'M': self.M}) + '\n')
        return f


def prepare(c, layouts):
    rng = random.Random(c.seed * 77 + 1)
    ls = [Lay(c, k, l, small(l, rng), rng) for k, l in enumerate(layouts)]
    c.config_header()
    with ThreadPoolExecutor(8) as ex:
        return list(reversed(list(ex.map(lambda x: x.build(), reversed(ls)))))


def line(ops):
    return ' '.join('%s %d %d %d %s ;' % (o['op'], o['i'], o['j'], o['v'], ' '.join(map(str, o['ts']))) for o in ops)


def renumber(ops):
    """Every description is an object of its own."""
    r = []
    for k, o in enumerate(ops):
        o = dict(o)
        o['v'] = k + 1
        r.append(o)
    return r


def generated(c, lay, nd, ns, multi, which, maxlen=60):
    res = c.tlc('TraitsGen', cfg(consts={'ND': nd, 'NS': ns, 'Multi': 'TRUE' if multi else 'FALSE',
                                         'Which': '"%s"' % which},
                                 inv=('NeverConflicting', 'DescribedAreSet'), action_constraint=('EmitEdge',),
                                 view='View', deadlock=False), env={'LAYOUT_FILE': lay.file()})
    tests = tours(printed(res), maxlen)
    return run_harness(c, lay.exe, [line(renumber(t)) for t in tests], [nd, ns], jobs=8,
                       what='operations generated from the specification on the real traits'), len(tests)


def rand_ops(rng, lay, nd, ns, length, sets):
    # of a wide layout some traits, of the first and the last groups among them
    few = range(1, lay.n + 1) if lay.n < 9 else \
        rng.sample(range(1, lay.n + 1), 4) + [t for g in (lay.L[0], lay.L[-1]) for a in g for t in a]

    def ts(k=None):
        return [rng.choice(few)] if k or rng.random() < .6 else rng.choice(lay.M)
    ed = sorted({t for g in lay.S for a in g for t in a})
    r = []
    for k in range(length):
        i, j = rng.randint(1, nd), rng.randint(1, nd)
        pick = rng.random()
        if sets and pick < .75:
            i, j = rng.randint(1, ns), rng.randint(1, ns)
            op = rng.choice(['sset', 'sset', 'sunset', 'sdesc', 'sdesc', 'sdesc', 'snull', 'sself', 'srelease', 'sunsetall',
                             'snew', 'smove', 'smovector', 'sassign', 'sctor', 'setds', 'updds', 'upsd', 'dget', 'sunsete', 'setss', 'updss',
                             'setes', 'updes', 'setse', 'updse'])
            if op in ('sassign', 'sctor'):
                j = rng.randint(1, nd)
            if op in ('setds', 'updds', 'upsd', 'dget'):
                i = rng.randint(1, nd)
            if op == 'smovector' and i == j:
                op = 'smove'
            if op in ('sunsetall', 'snew', 'sassign', 'sunsete') and rng.random() < .6:
                op, j = 'sdesc', 0
            t = ts(1) if op in ('sdesc', 'snull', 'sself', 'srelease') else ts() if op in ('sset', 'sunset') else []
        else:
            op = rng.choice(['dset', 'dset', 'dset', 'dunset', 'dunsetgrp', 'dunsetall', 'dcopy', 'eset', 'eset', 'eunset',
                             'setde', 'updde', 'seted', 'upded', 'dsete', 'dunsete'])
            t = ts() if op in ('dset', 'dunset', 'dunsetgrp') else \
                [rng.choice(ed)] if op in ('eset', 'eunset') else []
        r.append(dict(op=op, i=i, j=j, v=k + 1, ts=t))
    return r


def recorded(c, lay, nd, ns, n, length, sets):
    rng = random.Random(c.seed * 131 + lay.k)
    tests = [rand_ops(rng, lay, nd, ns, length, sets) for _ in range(n)]
    if lay.n > 8:
        # every trait in turn, in both orders
        for order in (range(1, lay.n + 1), range(lay.n, 0, -1))[sets:]:
            t = [(op, x) for x in order for op in (['sdesc' if x % 3 else 'sset'] if sets else ['dset'])]
            t += [(op, x) for x in order for op in (['sunset'] if sets else ['dunset'] if x % 3 else ['dunsetgrp', 'dset'])]
            tests.append([dict(op=op, i=1, j=0, v=k + 1, ts=[x]) for k, (op, x) in enumerate(t)])
    c.sample({'layout': lay.L, 'history': line(tests[0])[:300]})
    return run_harness(c, lay.exe, [line(t) for t in tests], [nd, ns], jobs=8,
                       what='a random history on the real traits')


def layouts(c):
    rng = random.Random(c.seed * 17 + 3)
    k = 10 if c.thorough else 2
    return LAYOUTS + [random_layout(rng, rng.choice([4, 5, 6])) for _ in range(k)]


def wide(c):
    """Layouts as wide as a key allows."""
    rng = random.Random(c.seed * 19 + 4)
    return [random_layout(rng, n, 7) for n in ([20, 33, 64, 64] if c.thorough else [20, 64])]


def descriptors(c):
    ls = prepare(c, layouts(c) + wide(c))
    n = len(ls) - len(wide(c))
    traces = []
    with ThreadPoolExecutor(4) as ex:
        for ts, _ in ex.map(lambda x: generated(c, *x), [(ls[0], 1, 0, c.thorough, 'de')] +
                            [(lay, 1, 0, c.thorough or lay.n < 6, 'd') for lay in ls[:n]]):
            traces += ts
    for lay in ls:
        traces += recorded(c, lay, 2, 0, 400 if c.thorough else 25, 40, False) if lay.n < 9 else \
            recorded(c, lay, 1, 0, 100 if c.thorough else 6, 40, False)
    trace_check(c, 'TraitsTrace', traces)


def sets(c):
    lay = prepare(c, (layouts(c) if c.thorough else [LAYOUTS[0], LAYOUTS[3], LAYOUTS[5]] + layouts(c)[-1:]) + wide(c)[-1:])
    traces = generated(c, lay[0], 0, 1, True, 's')[0]
    traces += generated(c, lay[1], 0, 1, c.thorough, 's')[0]
    if c.thorough:
        traces += generated(c, lay[2], 1, 1, False, 'ds')[0]
    for x in lay:
        traces += recorded(c, x, 2, 3, 400 if c.thorough else 60, 60, True) if x.n < 9 else \
            recorded(c, x, 1, 2, 40 if c.thorough else 3, 40, True)
    trace_check(c, 'TraitsTrace', traces)
