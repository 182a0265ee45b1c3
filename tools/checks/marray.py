"""Multidimensional arrays (C22)."""
import math
import random
from mbt import *


def line(ops):
    return ' '.join('%s %d %d %d %s ;' % (o['op'], o['i'], o['j'], o['v'], ' '.join(map(str, o['x']))) for o in ops)


def renumber(ops):
    return [dict(o, v=k + 1) for k, o in enumerate(ops)]


def history(rng, rank, ns, length, big):
    dims, ops = [None] * ns, []
    for k in range(length):
        i, j = rng.randrange(ns), rng.randrange(ns)
        op = rng.choice(['new', 'renew', 'move', 'ctor', 'destroy'] + ['row'] * 2 + ['set'] * 9)
        x = []
        if op in ('new', 'renew'):
            x = [rng.choice([1, 2, 3, rng.randint(1, big)]) for _ in range(rank)]
            if rng.random() < .05:
                x[rng.randrange(rank)] = 0
            dims[i] = x
        elif op in ('set', 'row'):
            if not dims[i] or 0 in dims[i]:
                continue
            x = [rng.choice([0, d - 1, rng.randrange(d)]) for d in dims[i]]
            x = x[:1] if op == 'row' else x
        elif op == 'destroy':
            dims[i] = None
        elif op == 'ctor' and i == j:
            continue
        elif i != j:
            dims[i], dims[j] = dims[j], None
        ops.append(dict(op=op, i=i + 1, j=j + 1, v=k + 1, x=x))
    return ops


def large(rng, dims):
    """Elements of a large array: corners, neighbours of others, and random ones; some twice."""
    ixs = []
    for _ in range(14):
        ixs.append([rng.choice([0, d - 1, rng.randrange(d)]) for d in dims])
        ixs.append([(i + (k == len(ixs) % len(dims))) % d for k, (i, d) in enumerate(zip(rng.choice(ixs), dims))])
    # those which agree with it modulo a power of two in their position
    for bits in (8, 16, 31, 32):
        for ix in rng.sample(ixs, 3):
            p = 0
            for i, d in zip(ix, dims):
                p = p * d + i
            for q in (p + 2 ** bits, p - 2 ** bits):
                x = []
                for d in reversed(dims):
                    x.insert(0, q % d)
                    q //= d
                if q == 0:
                    ixs.append(x)
    ixs += rng.sample(ixs, 3)
    return ' ; '.join(' '.join(map(str, x)) for x in [dims] + [ix + [n % 120 + 1] for n, ix in enumerate(ixs)]) + ' ;'


def arrays(c):
    c.config_header()
    exe = c.compile('marray', ['marray.cpp'])
    rng = random.Random(c.seed * 23 + 7)
    traces = []
    worlds = [(2, 2, 2), (3, 1, 2), (2, 1, 3), (4, 1, 2), (2, 3, 1)] if c.thorough else [(2, 1, 2), (2, 2, 1), (3, 2, 1)]
    for rank, ns, dim in worlds:
        big = rank >= 4
        res = c.tlc('MArrayGen', cfg(consts={'NS': ns, 'Rank': rank, 'MaxDim': dim}, props=('Framed', 'Conserved'),
                                     action_constraint=('EmitEdge',), view='View', deadlock=False, constraint=()),
                    timeout=800, extra=('-depth', '4') if big else ())
        tests = [renumber(t) for t in tours(printed(res))]
        log('rank %d, %d slots: %d tests' % (rank, ns, len(tests)))
        for kind in 'mf':
            traces += run_harness(c, exe, [line(t) for t in tests], [kind, rank, ns], jobs=8,
                                  what='operations generated from the specification on real arrays')
    for rank in (2, 3, 4, 5):
        for kind in 'mf':
            tests = [history(rng, rank, 3, 50, {2: 9, 3: 5, 4: 4, 5: 3}[rank]) for _ in range(100 if c.thorough else 25)]
            c.sample({'rank': rank, 'kind': kind, 'history': line(tests[0])[:200]})
            traces += run_harness(c, exe, [line(t) for t in tests if t], [kind, rank, 3], what='a random history on real arrays')
    # the elements which are not used take no memory
    fast = c.compile('marray-large', ['marray.cpp'], san=False)
    dims = [[2, 300], [300, 2], [300, 300], [70000, 3], [3, 70000], [2, 300, 300], [300, 2, 300], [300, 300, 2], [17, 16, 16, 16], [2, 2, 3, 300, 100],
            [3, 4, 5, 6, 7, 8], [2, 3, 2, 3, 2, 3, 2], [9, 8, 7, 6, 5, 4, 3], [50000, 100000], [3, 50000, 40000], [2, 3, 30000, 30000], [2 ** 20, 2 ** 12 + 1],
            [5, 2 ** 30 + 1], [2, 2, 40000, 40000], [2, 70000, 3], [70000, 2, 2], [2, 3, 70000, 2], [2, 2 ** 18 + 1, 2 ** 13 + 3], [2, 2 ** 16, 2 ** 16 + 1]]
    tests = [large(rng, d) for d in dims for _ in range(8 if c.thorough else 2)]
    for kind in 'mf':
        got = run_harness(c, fast, tests, [kind, 'L', 0], what='an access to a large array')
        traces += [t for t in got if t[0]['r']]
        if any(not t[0]['r'] and math.prod(t[0]['o']['x']) < 2 ** 31 for t in got):
            raise Violation('no memory for an array', str([t for t in got if not t[0]['r']][0]))
    trace_check(c, 'MArrayTrace', traces)
