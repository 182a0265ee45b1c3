"""The legacy part: collections of cells and trees (C27), errors and texts (C28)."""
import random
from concurrent.futures import ThreadPoolExecutor
from mbt import *
from checks import staticmap as sm


def tree(rng, keys):
    """A random binary tree over the keys, as (C++ type, keys in preorder, form)."""
    if not keys:
        return 'Utility::Null', [], ''
    k = rng.randint(0, len(keys) - 1)
    l, lk, lf = tree(rng, keys[1:1 + k])
    r, rk, rf = tree(rng, keys[1 + k:])
    return 'Base::Node<K<%d>, %s, %s>' % (keys[0], l, r), [keys[0]] + lk + rk, '(' + lf + ',' + rf + ')'


GROUP = {1: 0, 2: 0, 3: 1, 4: 2, 5: 3, 6: 3, 7: 4, 8: 0, 9: 3, 10: 1}  # keys with values that can be converted


def conv(w):
    """Pairs of trees of one form whose values can be converted."""
    return [[i + 1, j + 1] for i, a in enumerate(w[1]) for j, b in enumerate(w[1])
            if w[0] == 'n' and i != j and a[2] == b[2]
            and all(GROUP[x] == GROUP[y] for x, y in zip(a[1], b[1]))]


def rename(rng, keys):
    """The keys, some of them replaced by others with values of the same kind."""
    ks = list(keys)
    for x in range(len(ks)):
        k = rng.choice([k for k in GROUP if GROUP[k] == GROUP[ks[x]]])
        if k in ks:
            ks[ks.index(k)] = ks[x]
        ks[x] = k
    return ks


def worlds(rng, count):
    w = [('l', [[1, 3, 5], [5, 3]]), ('l', [[1], [5, 6, 1], [6]]), ('l', [[3, 4], [4, 3]]),
         ('n', [tree(random.Random(1), x) for x in ([1, 3, 2], [1, 3, 2], [3, 2, 1])]), ('n', [tree(random.Random(k), [2, 4, 1, 3]) for k in (2, 2)]),
         ('n', [tree(random.Random(1), x) for x in ([1, 3, 2], [2, 3, 1])])]
    gen = len(w)
    for _ in range(count):
        maps = []
        for _ in range(rng.randint(2, 4)):
            maps.append(rng.choice(maps) if maps and rng.random() < .3 else rng.sample(range(1, 11), rng.choice((1, 2, 3, 4, 5, 6, 8, 10))))
        w.append(('l', maps))
    for _ in range(count // 2):
        t = tree(rng, rng.sample(range(1, 11), rng.choice((1, 2, 3, 4, 5, 6, 8, 10))))
        u = tree(rng, rng.sample(range(1, 11), rng.choice((1, 2, 3, 4, 5, 6, 8, 10))))
        w.append(('n', [t, t] + ([u] if u[1] != t[1] else [])))
        s = rng.random()
        ks = rng.sample(range(1, 11), rng.randint(2, 7))
        ts = []
        for _ in range(4):
            t = tree(random.Random(s), rename(rng, ks))
            if t[1] not in [x[1] for x in ts]:
                ts.append(t)
        w.append(('n', ts))
    return w, gen


def keys(w):
    return [m if w[0] == 'l' else m[1] for m in w[1]]


def cxx(w):
    return 'World<%s>' % ', '.join('LM<%s>' % ','.join(map(str, m)) if w[0] == 'l' else 'NM<%s, %s>' % (m[0], ','.join(map(str, m[1])))
                                   for m in w[1])


def head(w):
    return {'maps': keys(w), 'kind': sm.KIND, 'ordered': w[0] == 'l', 'legacy': True, 'conv': conv(w), 'top': 1, 'counts': False, 'json': False}


def cells(c):
    rng = random.Random(c.seed * 43 + 7)
    ws, gen = worlds(rng, 30 if c.thorough else 8)
    c.config_header(legacy=True)
    parts = [list(range(len(ws)))[k::8] for k in range(8)]

    def build(k):
        d = c.path('p%d' % k)
        os.makedirs(d)
        with open(os.path.join(d, 'world.h'), 'w') as f:
            f.write('#include <bcl/legacy/tree.h>\nstatic void dispatch(int N, istream &In) {\n  switch (N) {\n')
            for n in parts[k]:
                f.write('  case %d: return test<%s>(In);\n' % (n, cxx(ws[n])))
            f.write('  }\n  exit(4);\n}\n')
        return c.compile('cells%d' % k, ['staticmap.cpp'], flags=['-I' + d, '-include', 'bcl/legacy/tree.h'], opt='-O0')
    with ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(build, range(8)))
    tests = []
    for n in range(gen):
        f = c.path('w.ndjson')
        with open(f, 'w') as fo:
            fo.write(json.dumps(head(ws[n])) + '\n')
        res = c.tlc('StaticMapGen', cfg(props=('Framed', 'CopyExact'), action_constraint=('EmitEdge',), constraint=('Small',), view='View', deadlock=False),
                    env={'WORLD_FILE': f})
        tests += [(n, t) for t in tours(printed(res))]
    for n, w in enumerate(ws):
        # histories of ordinary maps without what cells do not have (trees: no move)
        h = ('s' if w[0] == 'l' else 't', keys(w))
        for _ in range(60 if c.thorough else 12):
            tests.append((n, [o for o in sm.history(h, rng, 60, legacy=True, conv=conv(w))]))
    log('%d tests' % len(tests))
    c.sample({'world': cxx(ws[tests[-1][0]]), 'history': sm.line(*tests[-1])[:300]})

    def execute(k):
        mine = [(n, t) for n, t in tests if n in parts[k]]
        out = run_harness(c, exes[k], [sm.line(n, t) for n, t in mine], what='operations on the real cells')
        return [[head(ws[n])] + t for (n, _), t in zip(mine, out)]
    with ThreadPoolExecutor(8) as ex:
        traces = [t for part in ex.map(execute, range(8)) for t in part]
    trace_check(c, 'StaticMapTrace', traces)
    sm.typelists(c, legacy=True)


# --- errors ------------------------------------------------------------------
KINDS = ['Utility::Null', 'Base::ErrorList::Warning', 'Base::ErrorList::Error', 'Base::ErrorList::Fatal']


def coll(xs):
    return 'CELL_COLL_%d(%s)' % (len(xs), ', '.join(xs)) if xs else 'Utility::Null'


def forest(rng, n, deep=3):
    out = []
    while n > 0:
        k = rng.randint(0, n - 1) if deep else 0
        out.append({'type': rng.randint(0, 3), 'subs': forest(rng, k, deep - 1)})
        n -= 1 + k
    return out


def declare(es, name, out):
    ids = []
    for i, e in enumerate(es, 1):
        me = '%s_%d' % (name, i)
        subs = declare(e['subs'], me, out)
        out.append('ERROR_DECL(%s, "e%d", %s, %s)' % (me, i, coll(subs), KINDS[e['type']]))
        ids.append(me)
    return ids


def paths(es, pre=()):
    for i, e in enumerate(es, 1):
        yield pre + (i,)
        yield from paths(e['subs'], pre + (i,))


def reach(A, a, b):
    return a == b or any(reach(A, u, b) for u in A[a - 1]['uses'])


def apps_header(worlds):
    out, calls = [], []
    for w, A in enumerate(worlds):
        out.append('namespace w%d {' % w)
        for a, app in enumerate(A, 1):
            ids = declare(app['errors'], 'E%d' % a, out)
            out.append('struct A%d { DESCRIPTION_FIELD(Acronym, "Acronym", "APP%d") typedef %s Errors; typedef Base::ErrorList::Priority ErrorPriority; '
                       'typedef %s Applications; typedef Utility::Null ValueType; };' % (a, a, coll(ids), coll(['A%d' % u for u in app['uses']])))
        out.append('static void run() {')
        for b, app in enumerate(A, 1):
            see = [a for a in range(1, len(A) + 1) if reach(A, a, b)]
            for p in paths(app['errors']):
                ids = ['E%d_%s' % (b, '_'.join(map(str, p[:k]))) for k in range(1, len(p) + 1)]
                out.append('  err<A%d, %s, %s, %s>(%d, "[%s]", {%s});' % (b, coll(ids), ids[0], ', '.join('A%d' % a for a in see), b,
                                                                         ','.join(map(str, p)), ','.join(map(str, see))))
        out.append('}\n}')
        calls.append('  cout << "world" << endl; w%d::run();' % w)
    return '\n'.join(out) + '\nstatic void run_apps() {\n' + '\n'.join(calls) + '\n  cout << "texts" << endl;\n}\n'


def errors(c):
    rng = random.Random(c.seed * 47 + 3)
    c.config_header(legacy=True)
    worlds = []
    for n, kinds in ((4, 0), (2, 3)) if c.thorough else ((3, 0), (1, 2)):
        res = c.tlc('LegacyGen', cfg(consts={'N': n, 'Kinds': kinds}, inv=('Emit', 'Laws'), deadlock=False))
        worlds += [e['a'] for e in printed(res)]
    if not c.thorough:
        four = [w for w in worlds if len(w) == 4]
        worlds = four + rng.sample([w for w in worlds if len(w) < 4], 64)
    for _ in range(200 if c.thorough else 24):
        A = []
        for a in range(rng.randint(1, 4)):
            A.append({'errors': forest(rng, rng.randint(0, 9)), 'uses': rng.sample(range(1, a + 1), rng.randint(0, a))})
        worlds.append(A)
    nums = [0, 1, -1, 9, 10, -10, 2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1] + [rng.randint(-2 ** 31, 2 ** 31 - 1) // 10 ** rng.randint(0, 9) for _ in range(200)]
    lines = ['num %d' % n for n in nums]
    for n in range(6):
        for size in range(n + 3):
            lines.append('copy %d %s' % (size, ' '.join(str(rng.randint(32, 126)) for _ in range(n))))
    for _ in range(100):
        n = rng.randint(0, 300)
        lines.append('copy %d %s' % (max(0, n + rng.randint(-3, 4)), ' '.join(str(rng.randint(1, 127)) for _ in range(n))))
    jobs = 24 if c.thorough else 8

    def build(k):
        mine = worlds[k::jobs]
        d = c.path('l%d' % k)
        os.makedirs(d)
        with open(os.path.join(d, 'apps.h'), 'w') as f:
            f.write(apps_header(mine))
        exe = c.compile('legacy%d' % k, ['legacy.cpp'], flags=['-I' + d], opt='-O0')
        rc, out, err = c.run([exe], input='\n'.join(lines if k == 0 else []) + '\n', timeout=120)
        if rc:
            raise Violation('the program with errors of applications ended with %s (%s)' % (rc, summarize(err)), err[-4000:])
        traces, cur = [], None
        it = iter(mine + [[]])
        for x in out.splitlines():
            if x in ('world', 'texts'):
                cur = [next(it)]
                traces.append(cur)
                continue
            e = json.loads(x)
            if e['op'] == 'num':
                n = e.pop('n')
                e.update(neg=n[0] == '-', digits=[int(d) for d in n.lstrip('-')])
            cur.append(e)
        for t, A in zip(traces, mine):
            if sorted((e['b'], tuple(e['path'])) for e in t[1:]) != sorted((b, p) for b, x in enumerate(A, 1) for p in paths(x['errors'])):
                raise CheckError('other errors than asked for')
        if len(traces[-1]) != 1 + 4 + (len(lines) if k == 0 else 0):
            raise CheckError('not all texts were answered')
        return traces
    with ThreadPoolExecutor(8) as ex:
        traces = [t for part in ex.map(build, range(jobs)) for t in part]
    c.sample({'applications': worlds[-1]})
    trace_check(c, 'LegacyTrace', traces)
