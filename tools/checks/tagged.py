"""Tagged pairs and tuples, convertible pairs, tuple utilities (C23)."""
import random
from concurrent.futures import ThreadPoolExecutor
from mbt import *

CXX = {'val': 'Val', 'mov': 'Mov', 'str': 'Str'}
FORM = {'t': 'Tuple', 'p': 'Pair', 'c': 'Conv', 's': 'Std'}
FIXED = [
    ('t', [('val', [1, 4]), ('str', [2])]), ('p', [('str', [3, 1]), ('val', [2, 5, 6])]), ('c', [('val', [1]), ('str', [2])]),
    ('t', [('mov', [2]), ('val', [1])]), ('s', [('str', [1]), ('val', [2])]), ('t', []), ('t', [('val', [6, 1])]), ('s', []), ('s', [('str', [1])]),
    ('c', [('mov', [1]), ('val', [2])]), ('p', [('val', [1, 2]), ('val', [3])]),
]


def element(k, e):
    return 'bcl::tagged<%s<%d>, %s>' % (CXX[e[0]], k, ', '.join('Tag<%d>' % t for t in e[1]))


def cxx(w):
    # the same type may occur in several places of a tuple, but not of a convertible pair
    return 'World<%s>' % ', '.join([FORM[w[0]]] + [element(k if w[0] == 'c' else 0, e) for k, e in enumerate(w[1])])


def random_world(rng):
    form = rng.choice('ttttpcs')
    n = 2 if form in 'pc' else rng.choice((1, 2, 3, 4, 5, 6, 8, 10))
    tags = rng.sample(range(1, 11), 10)
    els = [[tags.pop()] for _ in range(n)]
    while tags and rng.random() < .7:
        rng.choice(els).append(tags.pop())
    return form, [(rng.choice(['val', 'str', 'str', 'mov']), e) for e in els]


def head(w, top=1):
    return {'E': [{'tags': t, 'kind': k} for k, t in w[1]], 'top': top}


def line(n, ops):
    return '%d ' % n + ' '.join('%s %d %d %d %d %s ;' % (o['op'], o['i'], o['j'], o['k'], o['v'], ' '.join(map(str, o['vs'])))
                                for o in ops)


def history(w, rng, length):
    n, ops = len(w[1]), []
    tags = [t for _, ts in w[1] for t in ts]
    names = ['new', 'make', 'assign', 'move', 'mctor', 'swap', 'add', 'args'] + (['set'] * 6 + ['setpos'] * 2 if n else [])
    if all(k != 'mov' for k, _ in w[1]):
        names += ['copy', 'cctor'] * 2
    for _ in range(length):
        i = rng.randint(1, 2)
        op = rng.choice(names)
        o = dict(op=op, i=i, j=0, k=0, v=rng.choice((0, 1, 7, 99, 10 ** 5, 10 ** 7)) if rng.random() < .1 else rng.randint(0, 99), vs=[])
        if op in ('make', 'assign'):
            o['vs'] = [rng.randint(0, 999) for _ in range(n)]
        elif op == 'set':
            o['k'] = rng.choice(tags)
        elif op == 'setpos':
            o['k'] = rng.randint(1, n)
        elif op in ('copy', 'cctor', 'swap'):
            o['j'] = rng.randint(1, 2)
        elif op in ('move', 'mctor'):
            o['j'] = 3 - i
        ops.append(o)
    return ops


def tagged(c):
    rng = random.Random(c.seed * 29 + 11)
    ws = FIXED + [random_world(rng) for _ in range(60 if c.thorough else 14)]
    c.config_header()
    parts = [list(range(len(ws)))[k::8] for k in range(8)]

    def build(k):
        d = c.path('p%d' % k)
        os.makedirs(d)
        with open(os.path.join(d, 'world.h'), 'w') as f:
            f.write('static void dispatch(int N, std::istream &In) {\n  switch (N) {\n')
            for n in parts[k]:
                f.write('  case %d: return %s::run(In);\n' % (n, cxx(ws[n])))
            f.write('  }\n  exit(4);\n}\n')
        return c.compile('tagged%d' % k, ['tagged.cpp'], flags=['-I' + d], opt='-O0')
    with ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(build, range(8)))
    tests = []
    for n in range(len(FIXED) if c.thorough else 5):
        f = c.path('w.ndjson')
        with open(f, 'w') as fo:
            fo.write(json.dumps(head(ws[n], 2 if c.thorough else 1)) + '\n')
        res = c.tlc('TaggedGen', cfg(props=('Framed', 'NothingLost'), action_constraint=('EmitEdge',), constraint=('Small',),
                                     view='View', deadlock=False), env={'WORLD_FILE': f})
        tests += [(n, t) for t in tours(printed(res))]
    log('%d generated tests' % len(tests))
    for n, w in enumerate(ws):
        tests += [(n, history(w, rng, 50)) for _ in range(40 if c.thorough else 8)]
    c.sample({'world': cxx(ws[-1]), 'history': line(*tests[-1])[:300]})

    def execute(k):
        mine = [(n, t) for n, t in tests if n in parts[k]]
        out = run_harness(c, exes[k], [line(n, t) for n, t in mine], what='operations on the real pairs and tuples')
        # the elements are those of the test, not those the harness reports
        return [[dict(t[0], E=head(ws[n])['E'])] + t[1:] for (n, _), t in zip(mine, out)]
    with ThreadPoolExecutor(8) as ex:
        traces = [t for part in ex.map(execute, range(8)) for t in part]
    trace_check(c, 'TaggedTrace', traces)
