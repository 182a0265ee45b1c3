import json, random
from mbt import *


def line(path):
    return ' '.join('%s %d %d %d %d ;' % (e['op'], e['i'], e['j'], e['v'], e.get('f', 0)) for e in path)


def replay(c, exe, n, consts, what):
    res = c.tlc('QueueImpl', cfg(consts=consts, inv=('Refines', 'NoContainer', 'TotalOrder'),
                                 action_constraint=('EmitPath',), view='View', deadlock=False))
    tests = drop_prefixes(printed(res))
    if len(tests) < 50:
        raise CheckError('only %d behaviours generated' % len(tests))
    got = run_harness(c, exe, [line([e['o'] for e in t]) for t in tests], [n], jobs=8,
                      what='a behaviour of the queue specification executed on the real queue')
    for t, g in zip(tests, got):
        for k, (e, r) in enumerate(zip(t, g)):
            if r['res'] != e['res'] or r['cmp'] != e['cmp'] or r['obs'] != e['obs'] or \
                    (e['noalloc'] and r['alloc']):
                raise Violation('%s: after %s the real queue shows %s, the specification %s'
                                % (what, line([x['o'] for x in t[:k + 1]]), json.dumps(r), json.dumps(e)),
                                'operations: ' + line([x['o'] for x in t[:k + 1]]))
        if len(g) != len(t):
            raise CheckError('lost events')
    c.cov['traces_validated_against_impl'] += len(tests)
    c.sample({'spec_behaviour': line([x['o'] for x in tests[0]])})
    return len(tests)


def rand_ops(rng, n, length, elems, cmps):
    ops = []
    for _ in range(length):
        i, j = rng.randint(1, n), rng.randint(1, n)
        k = rng.random()
        if cmps and k < 0.35:
            ops.append(dict(op='cmp', i=i, j=j, v=0))
        elif k < 0.41:
            ops.append(dict(op=rng.choice(['pushfront', 'emplfront', 'emplback']), i=i, j=rng.choice([i, i, j]), v=0))
        elif k < 0.62:
            ops.append(dict(op=rng.choice(['push', 'push', 'push', 'emplace', 'emplace0']), i=i, j=0,
                            v=rng.randint(0, elems)))
            if ops[-1]['op'] == 'emplace0':
                ops[-1]['v'] = 0
        elif k < 0.75:
            ops.append(dict(op='pop', i=i, j=0, v=0))
        elif k < 0.8:
            ops.append(dict(op=rng.choice(['setfront', 'setback', 'new1']), i=i, j=0, v=rng.randint(0, elems)))
        elif k < 0.82:
            ops.append(dict(op='new', i=i, j=0, v=0))
        else:
            op = rng.choice(['copyassign', 'swap', 'fswap', 'copyctor', 'movector', 'moveassign'])
            if i == j and op in ('copyctor', 'movector', 'moveassign'):
                op = 'copyassign'
            ops.append(dict(op=op, i=i, j=j, v=0))
    return ops


def faults(rng, ops, p):
    """Some of the operations run out of memory."""
    return [dict(o, f=rng.choice([1, 1, 1, 2, 2, 3])) if rng.random() < p else o for o in ops]


def long_ops(rng, n, elems, cmps):
    """Queues that grow and shrink by many elements."""
    ops = []
    for _ in range(6):
        i = rng.randint(1, n)
        for _ in range(rng.choice([30, 70, 140])):
            ops.append(dict(op=rng.choice(['push', 'emplace']), i=i, j=0, v=rng.randint(0, elems)))
        ops += rand_ops(rng, n, 6, elems, cmps)
        i = rng.randint(1, n)
        for _ in range(rng.choice([0, 40, 100])):
            ops.append(dict(op='pop', i=i, j=0, v=0))
        ops += rand_ops(rng, n, 3, elems, cmps)
    return ops


def record(c, exe, n, count, length, elems, cmps):
    rng = random.Random(c.seed * 7919 + n)
    tests = [rand_ops(rng, n, rng.randint(length // 2, length), elems, cmps) for _ in range(count)] + \
        [long_ops(rng, n, elems, cmps) for _ in range(60 if c.thorough else 6)]
    tests += [faults(rng, t, .3) for t in tests[:len(tests) // 2]] + [faults(rng, t, .1) for t in tests[-3:]]
    got = run_harness(c, exe, [line(t) for t in tests], [n], jobs=8,
                      what='a random history executed on the real queue')
    trace_check(c, 'QueueTrace', got, consts={'N': n})
    c.sample({'recorded_history': line(tests[0])[:400]})


def fifo(c):
    exe = c.compile('queue', ['queue.cpp'])
    replay(c, exe, 2, {'N': 2, 'Elems': '{0, 1, 2}', 'MaxLen': 4 if c.thorough else 3, 'Cmps': 'FALSE', 'Emit': 'TRUE'},
           'FIFO behaviour')
    if c.thorough:
        replay(c, exe, 3, {'N': 3, 'Elems': '{1, 2}', 'MaxLen': 2, 'Cmps': 'FALSE', 'Emit': 'TRUE'}, 'FIFO behaviour')
    record(c, exe, 3, 6000 if c.thorough else 600, 40, 5, False)
    c.record_len = 40


def order(c):
    exe = c.compile('queue', ['queue.cpp'])
    replay(c, exe, 2, {'N': 2, 'Elems': '{0, 1, 2}', 'MaxLen': 4 if c.thorough else 3, 'Cmps': 'TRUE', 'Emit': 'TRUE'},
           'comparison')
    record(c, exe, 3, 6000 if c.thorough else 600, 40, 4, True)
