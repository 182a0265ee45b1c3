"""Values that know their pointers and iterators with data (C25)."""
import random
from mbt import *


def line(ops):
    return ' '.join('%s %d %d %d ;' % (o['op'], o['i'], o['j'], o['v']) for o in ops)


def pool_history(rng, length):
    a, b, ops = 0, 0, []
    room = rng.choice([3, 8, 20])
    for _ in range(length):
        op = rng.choice(['emplace'] * 4 + ['erase', 'swap', 'swap', 'over', 'rotate', 'carry', 'set', 'setp', 'reverse', 'sort', 'room', 'trade'])
        i, j, v = rng.randint(1, max(a, 1)), rng.randint(1, max(a, 1)), rng.randint(0, 9)
        if op == 'emplace':
            if a >= room:
                op = 'erase'
            else:
                i = rng.choice([a + 1, a + 1, rng.randint(1, a + 1)])
                a += 1
        elif op in ('swap', 'over') and (a < 2 or i == j):
            continue
        elif op in ('rotate', 'carry', 'set', 'setp') and not a:
            continue
        if op == 'erase':
            j = min(a, i - 1 + rng.choice([0, 1, 1, 1, 2, a]))
            if not a:
                i, j = 1, 0
            a -= j - i + 1
        elif op == 'over':
            a -= 1
        elif op == 'carry':
            a, b = a - 1, b + 1
        elif op == 'trade':
            a, b = b, a
        ops.append(dict(op=op, i=i, j=j, v=v))
    return ops


def itr_history(rng, n, nx, length):
    p, ops = [1] * nx, []
    for _ in range(length):
        op = rng.choice(['pre'] * 3 + ['post'] * 3 + ['copy', 'make', 'data', 'itr', 'put'])
        i, j, v = rng.randint(1, nx), rng.randint(1, nx), rng.randint(1, n + 1)
        if op in ('pre', 'post', 'put') and p[i - 1] > n:
            continue
        if op in ('pre', 'post'):
            old = p[i - 1]
            p[i - 1] += 1
            p[j - 1] = p[i - 1] if op == 'pre' else old
        elif op == 'copy':
            p[j - 1] = p[i - 1]
        elif op in ('make', 'itr'):
            p[i - 1] = v
            j = rng.randint(0, 3)
        ops.append(dict(op=op, i=i, j=j, v=v))
    return ops


def wrappers(c):
    rng = random.Random(c.seed * 29 + 11)
    exe = c.compile('wrappers', ['wrappers.cpp'], flags=['-Wno-deprecated-declarations'])
    res = c.tlc('PoolGen', cfg(consts={'MaxLen': 4 if c.thorough else 3, 'MaxVal': 2}, inv=('One',), props=('Kept',),
                               action_constraint=('EmitEdge',), view='View', deadlock=False))
    tests = tours(printed(res))
    log('pools: %d tests' % len(tests))
    tests += [t for t in (pool_history(rng, 60) for _ in range(2000 if c.thorough else 150)) if t]
    c.sample({'pool': line(tests[-1])[:200]})
    traces = []
    for kind in ('own', 'int'):
        traces += run_harness(c, exe, [line(t) for t in tests], ['pool', kind], jobs=8, what='operations on values with known pointers')
    trace_check(c, 'PoolTrace', traces)
    traces = []
    res = c.tlc('DataItrGen', cfg(consts={'N': 2, 'NX': 2, 'MaxData': 1}, inv=('InRange', 'Walks'),
                                  props=('Attached',), action_constraint=('EmitEdge',), view='View', deadlock=False))
    tests = tours(printed(res))
    log('iterators: %d tests' % len(tests))
    for kind in ('list', 'forward', 'vector'):
        traces += run_harness(c, exe, [line(t) for t in tests], ['itr', kind, 2, 2], jobs=8, what='operations on iterators with data')
        for n, nx in ((7, 4), (0, 2), (15, 3)):
            hs = [h for h in (itr_history(rng, n, nx, 40) for _ in range(400 if c.thorough else 40)) if h]
            traces += run_harness(c, exe, [line(h) for h in hs], ['itr', kind, n, nx], what='operations on iterators with data')
    c.sample({'iterators': line(hs[0])[:200]})
    trace_check(c, 'DataItrTrace', traces)
