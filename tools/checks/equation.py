"""Systems of binomial equations (C17: solution, C18: instantiation and forms of it)."""
import random
from mbt import *


def build(c):
    return c.compile('equation', ['equation.cpp'])


def check(c, exe, lines, d, what):
    c.sample({'history': lines[len(lines) // 2][:300]})
    traces = run_harness(c, exe, lines, jobs=8, what=what)
    for l, t in zip(lines, traces):
        if isinstance(t, dict):
            raise Violation('results depend on the types of columns and values', '%s\n%s' % (l, json.dumps(t)))
    trace_check(c, 'EquationTrace', traces, consts={'D': d}, chunk=20000)


def push(e, g=(), ig=(), m=()):
    return 'push %d %d %d %d %d  %d %s %d %s %d %s ;' % (
        *e, len(g), ' '.join(map(str, g)), len(ig), ' '.join(map(str, ig)), len(m),
        ' '.join('%d %d' % q for q in m))


def plain(eqs):
    """'u': the system may have no solution."""
    return 'u' + ' '.join(map(push, eqs)) + ' inst 0 ; solve ;'


def grid(c, nv, ne, r, cr):
    res = c.tlc('EquationGen',
                cfg(consts={'NV': nv, 'NE': ne, 'R': r, 'CR': cr}, inv=('GcdDef',) if ne == 1 else (),
                    action_constraint=('Emit',), deadlock=False), timeout=800)
    return [plain(e) for e in printed(res)]


def consistent(rng, nv, ne, k, forest):
    """Equations with a common solution."""
    p = [rng.randint(-6, 6) for _ in range(nv + 1)]
    r, used = [], [1]
    vs = list(range(2, nv + 1))
    rng.shuffle(vs)
    for _ in range(ne):
        if forest:
            if not vs:
                break
            x, y = rng.choice(used), vs.pop()
            used.append(y)
            if rng.random() < .5:
                x, y = y, x
        else:
            x, y = rng.randint(1, nv), rng.randint(1, nv)
        a, b = (rng.choice([i for i in range(-k, k + 1) if i or (not forest and rng.random() < .2)]) for _ in 'ab')
        r.append((a, x, b, y, a * p[x] + b * p[y]))
    rng.shuffle(r)
    return r


def large(rng, nv):
    """Many equations with a common solution; few coefficients are not units."""
    p = [rng.randint(-6, 6) for _ in range(nv + 1)]
    vs = list(range(1, nv + 1))
    rng.shuffle(vs)
    r, used, big = [], [vs.pop()], 4

    def add(x, y):
        nonlocal big
        a, b = rng.choice([1, -1]), rng.choice([1, -1])
        if big and rng.random() < .3:
            big -= 1
            a, b = rng.choice([(a, 2 * b), (3 * a, b), (2 * a, 2 * b), (2 * a, 3 * b), (a * 5, b)])
        r.append((a, x, b, y, a * p[x] + b * p[y]))
    kind = rng.choice(['chain', 'tree', 'star', 'tree'])
    while vs:
        y = vs.pop()
        x = used[-1] if kind == 'chain' else used[0] if kind == 'star' else rng.choice(used)
        if rng.random() < .1:
            used = [y]  # another part
            continue
        used.append(y)
        add(*rng.choice([(x, y), (y, x)]))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        add(rng.randint(1, nv), rng.randint(1, nv))
    if rng.random() < .2:
        x, y = rng.sample(range(1, nv + 1), 2)
        r.append((2, x, 0, y, 2 * p[x]))
    if rng.random() < .7:
        rng.shuffle(r)
    return r or [(1, 1, 1, 2, p[1] + p[2])]


def history(rng):
    """Guards, computed monomials, forms of the solution."""
    nv, nz = rng.randint(2, 5), rng.choice([6, 6, 6, 15])
    if rng.random() < .1:
        nv = rng.choice([7, 9, 12])
        eqs = large(rng, nv)
    else:
        eqs = consistent(rng, nv, rng.randint(1, nv), rng.choice([1, 2, 3, 4]), rng.random() < .7)
    val = [rng.randint(0, 1) for _ in range(3)] + [rng.randint(-4, 4) for _ in range(nz - 3)]
    out = []
    true, false = [i + 1 for i in range(nz) if val[i]], [i + 1 for i in range(nz) if not val[i]]
    # values of all parts are used by the real code as bool only in guards
    for e in eqs:
        m = [(rng.randint(-3, 3), rng.randint(1, nz)) for _ in range(rng.choice([0, 0, 1, 2, 4, 12]))]
        s = sum(q * val[z - 1] for q, z in m)
        g = rng.sample(true, min(len(true), rng.choice([0, 0, 1, 3, 7])))
        ig = rng.sample(false, min(len(false), rng.choice([0, 0, 1, 2, 6])))
        out.append(push(e[:4] + (e[4] - s,), g, ig, m))
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        # discarded
        g, ig = rng.sample(true, min(len(true), 2)), rng.sample(false, min(len(false), 1))
        if false and (rng.random() < .5 or not true):
            g.insert(rng.randint(0, len(g)), rng.choice(false))
        elif true:
            ig.insert(rng.randint(0, len(ig)), rng.choice(true))
        else:
            continue
        e = [rng.randint(-3, 3), rng.randint(1, nv), rng.randint(-3, 3), rng.randint(1, nv), rng.randint(-9, 9)]
        out.append(push(tuple(e), g, ig, [(1, 1)] * rng.randint(0, 1)))
    rng.shuffle(out)
    return rng.choice('su') + ' '.join(out) + ' inst %d %s ; solve ; %s%s' % (
        nz, ' '.join(map(str, val)), rng.choice(['', 'positive ; ']), rng.choice(['', 'reverse ;', 'reverse ;']) if nv < 7 else '')


def solution(c):
    exe = build(c)
    rng = random.Random(c.seed * 53)
    one = grid(c, 2, 1, 5, 6)
    two = grid(c, 3, 2, 2, 1 if c.thorough else 0)
    if not c.thorough:
        rng.shuffle(one), rng.shuffle(two)
        one, two = one[:1500], two[:2500]
    check(c, exe, one, 3, 'all single equations on the real system')
    check(c, exe, two, 3, 'systems of two equations on the real system')
    pairs = [(a, b) for a in range(-24, 25) for b in range(-24, 25)]
    pairs += [(rng.randint(-30000, 30000), rng.randint(-30000, 30000)) for _ in range(600)]
    check(c, exe, ['s' + ' '.join('gcd %d %d ;' % p for p in pairs[i:i + 40]) for i in range(0, len(pairs), 40)], 1,
          'greatest common divisors')
    r = []
    for _ in range(6000 if c.thorough else 500):
        nv = rng.randint(2, 5)
        eqs = consistent(rng, nv, rng.randint(1, nv + 1), rng.choice([1, 2, 3]), rng.random() < .5)
        if rng.random() < .3:
            k = rng.randrange(len(eqs))
            eqs[k] = eqs[k][:4] + (eqs[k][4] + rng.randint(-2, 2),)
            r.append(plain(eqs))
        else:
            r.append('s' + plain(eqs)[1:])
    check(c, exe, r, 2, 'a random system')
    # many variables: chains, trees, cycles, several parts, in any order
    r = []
    for _ in range(2000 if c.thorough else 150):
        nv = rng.choice([8, 10, 12, 16, 24])
        eqs = large(rng, nv)
        if rng.random() < .2:
            k = rng.randrange(len(eqs))
            eqs[k] = eqs[k][:4] + (eqs[k][4] + rng.randint(-2, 2),)
            r.append(plain(eqs))
        else:
            r.append('s' + plain(eqs)[1:])
    check(c, exe, r, 2, 'a large system')


def forms(c):
    exe = build(c)
    rng = random.Random(c.seed * 59)
    check(c, exe, [history(rng) for _ in range(12000 if c.thorough else 1200)], 2, 'a random history of a system')
