"""Legacy values and the logic of types (C29)."""
import random
from concurrent.futures import ThreadPoolExecutor
from mbt import *

SCALARS = {'short': 'short', 'int': 'int', 'long': 'long', 'longlong': 'long long', 'ushort': 'unsigned short', 'uint': 'unsigned',
           'ulong': 'unsigned long', 'ulonglong': 'unsigned long long', 'float': 'float', 'double': 'double', 'longdouble': 'long double',
           'char': 'char', 'wchar': 'wchar_t', 'null': 'Null'}
NAMES = dict(SCALARS, foo='Foo', bool='bool', schar='signed char', text='std::string')
WORLDS = ['int', 'double', 'text', 'pt', 'bool', 'ptr', 'bomb']


def cxx(t):
    k = t[0]
    if k in NAMES:
        return NAMES[k]
    u = cxx(t[1])
    return {'ptr': 'std::add_pointer_t<%s>', 'ref': 'std::add_lvalue_reference_t<%s>', 'const': 'std::add_const_t<%s>',
            'val': 'Value<%s, True>'}[k] % u


def a_type(rng, depth=2):
    if depth == 0 or rng.random() < .4:
        return [rng.choice(list(NAMES) + ['int', 'null'])]
    k = rng.choice(['ptr', 'ptr', 'ref', 'const', 'val'])
    u = a_type(rng, depth - 1)
    if u[0] == 'ref' and k != 'val' or k == 'const' and u[0] == 'const' or k == 'val' and u[0] not in NAMES and u[0] not in ('ptr', 'val'):
        return u
    return [k, u]


def a_cond(rng, depth):
    k = rng.choice(['and', 'or', 'and', 'or', 'not'] if depth else ['true', 'false', 'same', 'scalar', 'ptr', 'ref'])
    if k in ('and', 'or'):
        return {'c': k, 'a': a_cond(rng, rng.randrange(depth)), 'b': a_cond(rng, rng.randrange(depth))}
    if k == 'not':
        return {'c': k, 'a': a_cond(rng, rng.randrange(depth))}
    if k in ('true', 'false'):
        return {'c': k}
    t = a_type(rng)
    return {'c': k, 't': t, 'u': t if rng.random() < .4 else a_type(rng)} if k == 'same' else {'c': k, 't': t}


def cond_cxx(c):
    k = c['c']
    if k in ('and', 'or', 'not'):
        return 'Utility::%s<%s>' % (k.capitalize(), ', '.join(cond_cxx(c[x]) for x in 'ab' if x in c))
    if k in ('true', 'false'):
        return k.capitalize()
    return 'Utility::%s<%s>' % ({'same': 'IsIdentical', 'scalar': 'IsScalar', 'ptr': 'IsPointer', 'ref': 'IsReference'}[k],
                                ', '.join(cxx(c[x]) for x in 'tu' if x in c))


def all_conds():
    """Every operation on every pair of constants, every test of every basic type."""
    b = [{'c': 'true'}, {'c': 'false'}]
    r = b + [{'c': 'not', 'a': x} for x in b] + [{'c': k, 'a': x, 'b': y} for k in ('and', 'or') for x in b for y in b]
    for n in NAMES:
        for t in ([n], ['ptr', [n]], ['ref', [n]], ['const', [n]], ['val', [n]]):
            r += [{'c': k, 't': t} for k in ('scalar', 'ptr', 'ref')] + [{'c': 'same', 't': t, 'u': t}, {'c': 'same', 't': t, 'u': [n]}]
    return r


def history(rng, length, nw, ns, nv, fails=False):
    w, s, ops = [0] * nw, [1] * ns, []
    while len(ops) < length:
        k = rng.choice(['wnew', 'wnull', 'tow0', 'wval', 'towv', 'put', 'wcopy', 'toww'] +
                       (['wstrong', 'tows', 'snew', 'tosv', 'sput', 'scopyw', 'tosw', 'scopys', 'toss'] if ns else []))
        strong = k[0] == 's' or k.startswith('tos')
        i = rng.randint(1, ns if strong else nw)
        o = dict(op=k, i=i, j=0, v=0, x=False)
        if k in ('wval', 'towv', 'put', 'snew', 'tosv', 'sput'):
            o['v'] = rng.randint(1, nv)
        elif k in ('wcopy', 'toww', 'scopyw', 'tosw'):
            o['j'] = rng.randint(1, nw)
        elif k in ('wstrong', 'tows', 'scopys', 'toss'):
            o['j'] = rng.randint(1, ns)
        if k == 'put' and not w[i - 1]:
            continue
        if fails and rng.random() < .4 and k not in ('wnew', 'wnull', 'tow0', 'put', 'sput') and (k not in ('wcopy', 'toww', 'scopyw', 'tosw') or w[o['j'] - 1]):
            o['x'] = True
        elif k in ('wnew', 'wnull', 'tow0'):
            w[i - 1] = 0
        elif not strong:
            w[i - 1] = o['v'] or (s if k in ('wstrong', 'tows') else w)[o['j'] - 1]
        ops.append(o)
    return ops


def line(t):
    return ' '.join('%s%s %d %d %d ;' % ('x' if o['x'] else '', o['op'], o['i'], o['j'], o['v']) for o in t)


def values(c):
    rng = random.Random(c.seed * 61 + 5)
    c.config_header(legacy=True)
    conds = all_conds() + [a_cond(rng, 4) for _ in range(2000 if c.thorough else 250)]
    calls = [{'f': 'cond', 'c': x, 't': [rng.choice(['int', 'foo'])], 'u': [rng.choice(['char', 'text'])]} for x in conds]
    seen = []
    for t in [[n] for n in NAMES] + [a_type(rng, 3) for _ in range(60)]:
        u = t[1] if t[0] == 'ptr' else t
        if u[0] != 'ref' and t not in seen:
            seen.append(t)
    calls += [{'f': 'traits', 't': t} for t in seen]
    with open(c.path('logic.h'), 'w') as f:
        f.write('static void logic() {\n')
        for e in calls:
            f.write('  cond<%s, %s, %s>();\n' % (cond_cxx(e['c']), cxx(e['t']), cxx(e['u'])) if e['f'] == 'cond' else '  traits<%s>();\n' % cxx(e['t']))
        f.write('}\n')
    with ThreadPoolExecutor(6) as ex:
        exe = ex.submit(c.compile, 'value', ['value.cpp'], flags=['-I' + c.scratch], opt='-O0')

        def edges(nw, ns, nv, fails=False):
            res = c.tlc('ValueGen', cfg(consts={'NW': nw, 'NS': ns, 'NV': nv, 'Fails': 'TRUE' if fails else 'FALSE'}, inv=('Strong', 'Laws'), props=('OneChanges',),
                                        action_constraint=('EmitEdge',), view='View', deadlock=False), workers=1)
            return tours(printed(res), 40)
        both = ex.submit(edges, 3 if c.thorough else 2, 2 if c.thorough else 1, 3 if c.thorough else 2)
        weak = ex.submit(edges, 3 if c.thorough else 2, 0, 3)
        failing = ex.submit(edges, 2, 2 if c.thorough else 1, 2, True)
        exe, both, weak, failing = exe.result(), both.result(), weak.result(), failing.result()
    rc, out, err = c.run([exe, 'logic', '0', '0', '0'], timeout=120)
    got = [json.loads(x) for x in out.splitlines()]
    if rc or len(got) != len(calls):
        raise Violation('the program with the logic of types ended with %s (%s)' % (rc, summarize(err)), err[-4000:])
    events = [dict(e, **r) for e, r in zip(calls, got)]
    rc, out, err = c.run([exe, 'numbers', '0', '0', '0'], timeout=120)
    numbers = [json.loads(x) for x in out.splitlines()]
    if rc or len(numbers) < 1000:
        raise Violation('the program which compares numbers of different types ended with %s (%s)' % (rc, summarize(err)), err[-4000:])
    traces = [events[k:k + 40] for k in range(0, len(events), 40)] + [numbers[k:k + 100] for k in range(0, len(numbers), 100)]

    def world(t):
        size = (2, 0, 3) if t == 'ptr' else (2, 1, 2)
        if c.thorough:
            size = (3, 0, 3) if t == 'ptr' else (3, 2, 3)
            if t == 'bool':
                return []    # two values only
            if t == 'bomb':
                size = (2, 2, 2)
        r = run_harness(c, exe, [line(x) for x in (weak if t == 'ptr' else failing if t == 'bomb' else both)], [t, *size], what='operations on the real legacy values')
        size = (4, 0, 5) if t == 'ptr' else (3, 2, 2) if t in ('bool', 'bomb') else (3, 2, 4)
        tests = [history(random.Random('%d %s %d' % (c.seed, t, k)), 30, *size, t == 'bomb') for k in range(400 if c.thorough else 12)]
        c.sample({t: line(tests[0])[:200]})
        return r + run_harness(c, exe, [line(x) for x in tests], [t, *size], what='operations on the real legacy values')
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(world, WORLDS):
            traces += r
    trace_check(c, 'ValueTrace', traces)
