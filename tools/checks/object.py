"""Wrappers of objects (C30)."""
import random
from mbt import *


def line(ops):
    return ' '.join('%s %d %d ;' % (o['op'], o['k'], o['v']) for o in ops)


def history(rng, kind, nw, ns, length):
    """A legal history; refs: which object a wrapper refers to (0: none)."""
    n = nw + ns
    refs, made, ops = {k: 0 if k <= nw else -k for k in range(1, n + 1)}, 0, []
    for _ in range(length):
        op = rng.choice(['none', 'new', 'new', 'make', 'make', 'make', 'set', 'set', 'set', 'delete', 'reset', 'put', 'put', 'put'])
        k, v = rng.randint(1, n), rng.randint(1, n)
        weak = k <= nw
        if op in ('none', 'reset') and not weak or op == 'make' and k == v or op == 'put' and not refs[k] \
                or op in ('make', 'set') and not weak and not refs[v]:
            continue
        if op == 'delete' and refs[k] and list(refs.values()).count(refs[k]) > 1:
            continue
        if op in ('none', 'reset') or op == 'delete' and weak:
            refs[k] = 0
        elif op in ('make', 'set'):
            made += 1
            refs[k] = refs[v] if kind == 'dynamic' or not refs[v] else made
        elif op == 'new' or op == 'delete' and kind == 'dynamic':
            made += 1
            refs[k] = made
        ops.append(dict(op=op, k=k, v=rng.randint(0, 999) if op == 'put' else v))
    return ops


def objects(c):
    rng = random.Random(c.seed * 37 + 5)
    exe = c.compile('object', ['object.cpp'], flags=['-Wno-deprecated-declarations'])
    for kind in ('static', 'dynamic'):
        ks = '"%s"' % kind
        nw, ns, mo = (2, 2, 4) if kind == 'static' else (2, 1, 4 if c.thorough else 3)
        res = c.tlc('ObjectGen', cfg(consts={'Kind': ks, 'NW': nw, 'NS': ns, 'MaxObj': mo}, inv=('Refer',),
                                     props=('Independent', 'OnDemand', 'Alike'), action_constraint=('EmitEdge',),
                                     view='View', deadlock=False))
        tests = tours(printed(res))
        log('%s objects: %d tests' % (kind, len(tests)))
        traces = run_harness(c, exe, [line(t) for t in tests], [kind, nw, ns], jobs=8, what='operations on wrappers of objects')
        for a, b in ((1, 1), (3, 2), (6, 4)):
            hs = [h for h in (history(rng, kind, a, b, 60) for _ in range(1500 if c.thorough else 100)) if h]
            traces += run_harness(c, exe, [line(h) for h in hs], [kind, a, b], jobs=8, what='operations on wrappers of objects')
        c.sample({kind: line(hs[0])[:200]})
        trace_check(c, 'ObjectTrace', traces)
