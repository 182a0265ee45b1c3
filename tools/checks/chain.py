"""Intrusive chains (C09)."""
import random
from mbt import *


def line(ops):
    return ' '.join('%s %d %d %d ;' % (o['op'], o['t'], o['a'], o['n']) for o in ops)


def chains(c):
    exe = c.compile('chain', ['chain.cpp'])

    def gen(n, nt, it):
        res = c.tlc('ChainGen', cfg(consts={'N': n, 'NT': nt, 'Iter': 'TRUE' if it else 'FALSE'}, inv=('Links',),
                                    action_constraint=('EmitEdge',), view='View', deadlock=False))
        tests = tours(printed(res), 80)
        # the two ways to call an operation alternate: shift every other test
        tests = [([dict(op='look', t=1, a=0, n=0)] if k % 2 else []) + t for k, t in enumerate(tests)]
        got = run_harness(c, exe, [line(t) for t in tests], [n, nt], jobs=8, what='generated chain operations')
        trace_check(c, 'ChainTrace', got, consts={'N': n, 'NT': nt}, name='gen%d%d' % (n, nt))
    gen(4, 1, False)
    gen(3, 1, True)
    if c.thorough:
        gen(5, 1, False)
        gen(4, 1, True)
        gen(3, 2, False)
    rng = random.Random(c.seed)
    tests = []
    n = 7
    for _ in range(5000 if c.thorough else 300):
        t, it = [], False
        tag = rng.choice([1, 2])
        for _ in range(60):
            if rng.random() < .3:
                tag = rng.choice([1, 2])
            k = rng.random()
            if k < .6:
                a, m = rng.sample(range(1, n + 1), 2)
                t.append(dict(op=rng.choice(['splicenext', 'spliceprev', 'mergenext', 'mergeprev']), t=tag, a=a,
                              n=m if rng.random() < .9 else 0))
            else:
                t.append(dict(op='set', t=tag, a=0, n=rng.randint(1, n)))
                t.append(dict(op=rng.choice(['preinc', 'postinc', 'predec', 'postdec']), t=tag, a=0, n=0))
        tests.append(t)
    got = run_harness(c, exe, [line(t) for t in tests], [n, 2], jobs=8, what='a random history of chain operations')
    trace_check(c, 'ChainTrace', got, consts={'N': n, 'NT': 2}, name='rec')
    c.sample({'history': line(tests[0])[:300]})
