"""Static maps (C20) and lists of types (C21)."""
import random
from concurrent.futures import ThreadPoolExecutor
from mbt import *

KIND = ['val', 'val', 'mov', 'mov', 'ptr', 'ptr', 'mov', 'val', 'ptr', 'mov']
N = len(KIND)
TYPES = (1, 2, 3, 4, 5, 7, 8)  # keys of different types


def worlds(rng, count):
    """A world: a flavour and the keys of its maps."""
    w = [('s', [[1, 3, 5], [5, 3]]), ('s', [[], [1], [1, 5, 6]]), ('s', [[3, 4], [4, 3]]),
         ('t', [[1, 3], [1, 3], [5]]), ('r', 'int', [[1, 2, 3], [1, 2, 3]]), ('r', 'Cnt', [[3, 1], [3, 1]]),
         ('r', 'Mov<0>', [[2, 1], [2, 1]])]
    gen = len(w)
    for _ in range(count):
        maps = []
        for _ in range(rng.randint(2, 4)):
            maps.append(rng.choice(maps) if maps and rng.random() < .3 else rng.sample(range(1, N + 1), rng.choice((0, 1, 2, 3, 4, 5, 7, N))))
        w.append(('s', maps))
    for _ in range(count // 3):
        k = rng.sample(TYPES, rng.randint(1, 7))
        w.append(('t', [k, k, rng.sample(TYPES, rng.randint(1, 7))]))
        k = rng.sample(range(1, 13), rng.randint(1, 12))
        w.append(('r', rng.choice(['int', 'Cnt', 'Mov<0>']), [k, k, rng.sample(range(1, 13), rng.randint(1, 12))]))
    return w, gen


def cxx(w):
    def one(k):
        ks = ','.join(map(str, k))
        if w[0] == 's':
            return 'SM<%s>' % ks
        if w[0] == 't':
            return 'TM<%s>' % ks
        return 'RM<%s, bcl::TraitDescriptor<%s>, %s>' % (w[1], ','.join('Tr<%d>' % x for x in k), ks)
    return 'World<%s>' % ', '.join(one(k) for k in w[-1])


def head(w, top=1):
    kind = KIND if w[0] != 'r' else ['mov' if w[1] == 'Mov<0>' else 'val'] * 12
    return {'maps': w[-1], 'kind': kind, 'ordered': w[0] == 's', 'legacy': False, 'conv': [], 'top': top,
            'counts': w[0] == 'r' and w[1] != 'Mov<0>', 'json': w[0] == 'r' and w[1] == 'int'}


def line(n, ops):
    return '%d ' % n + ' '.join('%s %d %d %d %d %s;' % (o['op'], o['i'], o['j'], o['k'], o['v'],
                                                        ''.join('%d ' % v for v in o['vs'])) for o in ops)


def history(w, rng, length, legacy=False, conv=()):
    maps, h = w[-1], head(w)
    n = len(maps)
    # a shadow of the pointers, to keep clear legal
    val = [{k: 0 for k in m} for m in maps]
    live, ops = set(), []
    ptr = {k for k in range(1, 1 + len(h['kind'])) if h['kind'][k - 1] == 'ptr'}
    for _ in range(length):
        i, j = rng.randrange(n), rng.randrange(n)
        o = dict(op='', i=i + 1, j=0, k=0, v=0, vs=[])
        names = ['set'] * 4 + ['new', 'copy', 'twice'] + (['move'] if not legacy or w[0] == 's' else [])
        if w[0] == 's':
            names += ['clear', 'clear', 'init'] + ['copyto', 'copyfrom'] * 2 + ([] if legacy else ['ctor'] + ['moveto', 'movefrom'] * 2)
        elif w[0] == 'r' and w[1] != 'Mov<0>':
            names += ['count'] * 3 + (['json'] * 2 if w[1] == 'int' else [])
        if legacy and w[0] == 't':
            names += ['ctor'] * 2 + ['conv'] * 2
        o['op'] = op = rng.choice(names)

        def v(k):
            return rng.choice([0, rng.randint(1, 99), rng.randint(1, 4)])
        if op == 'set':
            if not maps[i]:
                continue
            o['k'] = rng.choice(maps[i])
            o['v'] = v(o['k'])
            val[i][o['k']] = o['v']
        elif op == 'ctor':
            if not maps[i]:
                continue
            o['vs'] = [v(k) for k in maps[i]]
            val[i] = dict(zip(maps[i], o['vs']))
        elif op == 'new':
            val[i] = {k: 0 for k in maps[i]}
        elif op in ('clear', 'init'):
            if op == 'clear':
                p = [val[m][k] for m in range(n) for k in maps[m] if k in ptr and val[m][k]]
                if any(p.count(val[i][k]) > 1 for k in maps[i] if k in ptr and val[i][k]):
                    continue
            for k in maps[i]:
                if k in ptr:
                    val[i][k] = 0
        elif op == 'count':
            o['vs'] = rng.sample(maps[i], rng.randint(0, len(maps[i])))
        elif op == 'conv':
            if [i + 1, j + 1] not in conv:
                continue
            o['j'] = j + 1
            val[i] = dict(zip(maps[i], (val[j][k] for k in maps[j])))
        elif op != 'twice':
            if (op in ('copy', 'move', 'json') and maps[i] != maps[j]) or (op in ('move', 'moveto', 'movefrom') and i == j):
                continue
            o['j'] = j + 1
            for k in maps[i]:
                if k in maps[j]:
                    val[i][k] = val[j][k]
        ops.append(o)
    return ops


def staticmap(c):
    rng = random.Random(c.seed * 71)
    ws, gen = worlds(rng, 40 if c.thorough else 8)
    c.config_header()
    # the worlds are spread over several executables
    parts = [list(range(len(ws)))[k::8] for k in range(8)]

    def build(k):
        d = c.path('p%d' % k)
        os.makedirs(d)
        with open(os.path.join(d, 'world.h'), 'w') as f:
            f.write('static void dispatch(int N, istream &In) {\n  switch (N) {\n')
            for n in parts[k]:
                f.write('  case %d: return test<%s>(In);\n' % (n, cxx(ws[n])))
            f.write('  }\n  exit(4);\n}\n')
        return c.compile('staticmap%d' % k, ['staticmap.cpp'], flags=['-I' + d], opt='-O0')
    with ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(build, range(8)))
    tests = []
    for n in range(gen):
        f = c.path('w.ndjson')
        with open(f, 'w') as fo:
            fo.write(json.dumps(head(ws[n], 2 if c.thorough and n else 1)) + '\n')
        res = c.tlc('StaticMapGen', cfg(props=('Framed', 'CopyExact'), action_constraint=('EmitEdge',), constraint=('Small',), view='View', deadlock=False),
                    env={'WORLD_FILE': f})
        log('world %d: %d states' % (n, res['distinct']))
        tests += [(n, t) for t in tours(printed(res))]
    for n, w in enumerate(ws):
        tests += [(n, history(w, rng, 60)) for _ in range(60 if c.thorough else 12)]
    c.sample({'world': cxx(ws[tests[0][0]]), 'history': line(*tests[0])[:300]})

    def execute(k):
        mine = [(n, t) for n, t in tests if n in parts[k]]
        out = run_harness(c, exes[k], [line(n, t) for n, t in mine], what='operations on the real static maps')
        return [[head(ws[n])] + t for (n, _), t in zip(mine, out)]
    with ThreadPoolExecutor(8) as ex:
        traces = [t for part in ex.map(execute, range(8)) for t in part]
    trace_check(c, 'StaticMapTrace', traces)


def typelists(c, legacy=False):
    rng = random.Random(c.seed * 19 + 5)
    c.config_header(legacy)
    n = 3
    big = (4, 3) if c.thorough else (3, 2)
    res = c.tlc('TypeListGen', cfg(consts={'N': n, 'MaxA': big[0], 'MaxB': big[1]}, inv=('Emit', 'Laws'), deadlock=False))
    pairs = [(n, e['a'], e['b']) for e in printed(res)]
    for _ in range(400 if c.thorough else 60):
        m = 6
        a = [rng.randint(1, m) for _ in range(rng.randint(0, 8))]
        b = [rng.randint(1, m) for _ in range(rng.randint(0, 6))]
        if rng.random() < .5:
            a, b = (rng.sample(range(1, m + 1), rng.randint(0, m)) for _ in 'ab')
            if rng.random() < .6:
                b = [x for x in b if x not in a]
        pairs.append((m, a, b))
    c.sample({'lists': pairs[-1]})
    jobs = 32 if c.thorough else 8

    def build(k):
        part = pairs[k::jobs]
        out = []
        for m in (3, 6):
            mine = [p for p in part if p[0] == m]
            if not mine:
                continue
            d = c.path('l%d_%d' % (k, m))
            os.makedirs(d)
            with open(os.path.join(d, 'lists.h'), 'w') as f:
                f.write('static void tests() {\n')
                for _, a, b in mine:
                    f.write('  test<L<%s>, L<%s>>();\n' % (','.join(map(str, a)), ','.join(map(str, b))))
                f.write('}\n')
            exe = c.compile('typelist%d_%d' % (k, m), ['typelist.cpp'], flags=['-I' + d, '-DNTYPES=%d' % m], opt='-O0',
                            san=False)
            rc, text, err = c.run([exe], timeout=60)
            if rc:
                raise Violation('the program with lists of types ended with %d' % rc, err[-3000:])
            got = [json.loads(x) for x in text.splitlines()]
            if [(g['n'], g['a'], g['b']) for g in got] != [(m, a, b) for m, a, b in mine]:
                raise CheckError('results of other lists than asked for')
            out += got
        return out

    def macros(k):
        # CELL_COLL_1 to CELL_COLL_100, every one with cells in another order
        asked = [rng.sample(range(1, 131), n) for n in range(1, 101)][k::3]
        d = c.path('m%d' % k)
        os.makedirs(d)
        with open(os.path.join(d, 'lists.h'), 'w') as f:
            f.write('static void tests() {\n')
            for a in asked:
                f.write('  coll<CELL_COLL_%d(%s)>({%s});\n' % (len(a), ', '.join('K<%d>' % x for x in a), ', '.join(map(str, a))))
            f.write('}\n')
        exe = c.compile('collection%d' % k, ['typelist.cpp'], flags=['-I' + d, '-DNTYPES=3', '-Wno-unused'], opt='-O0', san=False)
        rc, text, err = c.run([exe], timeout=60)
        got = [json.loads(x) for x in text.splitlines()]
        if rc or [g['a'] for g in got] != asked:
            raise Violation('the program with collections of cells ended with %d' % rc, err[-3000:])
        return got
    with ThreadPoolExecutor(8) as ex:
        more = [ex.submit(macros, k) for k in range(3)] if legacy else []
        traces = [[e] for part in ex.map(build, range(jobs)) for e in part] + [m.result() for m in more]
    trace_check(c, 'TypeListTrace', traces)
