"""Small functions and wrappers (C25, C26)."""
import random
from mbt import *

RANGE = {'i8': (-128, 127), 'u8': (0, 255), 'c': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1), 'i32': (-2**31, 2**31 - 1),
         'u32': (0, 2**32 - 1), 'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}


SIZES = (1, 2, 3, 4, 5, 8, 12)


def width(t):
    return (RANGE[t][1] - RANGE[t][0] + 1).bit_length() - 1


def to_digits(v, base):
    r = []
    v = abs(v)
    while v:
        r.append(v % base)
        v //= base
    return r[::-1] or [0]


def value(d, base):
    v = 0
    for x in d:
        v = v * base + x
    return v


def bad_bytes(rng, n, h):
    b = [rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n)]
    if rng.random() < .7:
        b = [x if i < h else 0 for i, x in enumerate(b)]
    elif n > h:
        k = rng.randrange(h, n)
        b = [x if i < h or i == k else 0 for i, x in enumerate(b)]
    return b


def random_calls(rng, n):
    r = []
    for _ in range(n):
        f = rng.choice(['quote', 'digits', 'digits', 'bits', 'literal', 'shrink', 'shrink', 'restore', 'swap', 'insert', 'each', 'make'])
        e = {'f': f}
        if f == 'quote':
            s = [rng.choice([34, 34, 92, 32, 0, rng.randrange(256)]) for _ in range(rng.randint(0, 40))]
            if rng.random() < .3:
                s = [34] + s + [34]
            e['a'] = s
        elif f == 'digits':
            t = rng.choice(list(RANGE))
            lo, hi = RANGE[t]
            base = rng.choice([2, 3, 7, 8, 10, 16, 36, 100])
            v = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi) // base ** rng.randint(0, 5) * base ** rng.randint(0, 3)])
            v = max(lo, min(hi, v))
            if rng.random() < .4:
                v = base ** rng.randint(0, 70)
                if v > hi:
                    v = base
            e.update(t=t, base=base, neg=v < 0, a=to_digits(v, base))
        elif f == 'bits':
            t = rng.choice(list(RANGE))
            e.update(t=t, a=[rng.choice([0, 1]) for _ in range(width(t))])
        elif f == 'literal':
            e['a'] = [rng.choice([0, 1]) for _ in range(rng.choice([rng.randint(1, 64), 31, 32, 33, 63, 64]))]
        elif f == 'shrink':
            t = rng.choice(SIZES)
            e.update(t=t, a=bad_bytes(rng, rng.choice(SIZES), t // 2), b=bad_bytes(rng, rng.choice(SIZES), t // 2))
        elif f == 'restore':
            t = rng.choice(SIZES)
            e.update(a=[rng.randrange(256) for _ in range(t)], nf=rng.choice([x for x in SIZES if x >= t // 2]),
                     ns=rng.choice([x for x in SIZES if x >= t // 2]))
        elif f == 'swap':
            k = rng.choice([1, 2, 3, 5, 7, 8, 12, 15, 16, 30, 41, 100])
            e.update(a=[rng.randrange(256) for _ in range(k)], b=[rng.randrange(256) for _ in range(k)])
        elif f == 'insert':
            e['a'] = [rng.randint(0, 20) for _ in range(rng.randint(0, 30))]
        elif f == 'each':
            e['a'] = [rng.randint(0, 999) for _ in range(rng.randint(0, 4))]
        else:
            e['a'] = [rng.randint(0, 99) for _ in range(rng.randint(0, 3))]
        r.append(e)
    return r


def line(e, lits):
    f, p = e['f'], []
    if f == 'digits':
        p = [e['t'], e['base'], int(e['neg'])]
    elif f in ('mask', 'bits'):
        p = [e['t']] + ([e['n']] if f == 'mask' else [])
    elif f == 'literal':
        p = [lits[tuple(e['a'])]]
    elif f == 'shrink':
        p = [e['t']]
    elif f == 'restore':
        p = [0, e['nf'], e['ns']]
    elif f == 'array':
        p = [e['n']]
    return ' '.join([f] + [str(x) for x in p] + ['|'] + [str(x) for x in e.get('a', [])] + ['|'] + [str(x) for x in e.get('b', [])])


def utility(c):
    rng = random.Random(c.seed * 41 + 3)
    res = c.tlc('UtilityGen', cfg(consts={'MaxText': 6 if c.thorough else 4, 'MaxDigits': 5 if c.thorough else 3,
                                          'MaxBits': 7 if c.thorough else 4}, inv=('Emit', 'Laws'), deadlock=False))
    calls = []
    for e in printed(res):
        if e['f'] == 'digits':
            v = value(e['a'], e['base'])
            if e['neg'] and not v:
                continue
            for t, (lo, hi) in RANGE.items():
                if lo <= (-v if e['neg'] else v) <= hi:
                    calls.append(dict(e, t=t))
        else:
            calls.append(e)
    for t in RANGE:
        calls += [{'f': 'mask', 't': t, 'w': width(t), 'n': n} for n in range(width(t) + 1)]
        calls += [{'f': 'bits', 't': t, 'a': [int(i == k) for i in range(width(t))]} for k in range(width(t))]
    calls += [{'f': 'array', 'n': n} for n in (0, 1, 5, 200)] + [{'f': 'white'}, {'f': 'static'}]
    calls += random_calls(rng, 20000 if c.thorough else 2500)
    # every literal is a case of its own
    lits = {}
    for e in calls:
        if e['f'] == 'literal':
            lits.setdefault(tuple(e['a']), len(lits))
    if len(lits) > 600:
        keep = set(rng.sample(sorted(lits), 600))
        calls = [e for e in calls if e['f'] != 'literal' or tuple(e['a']) in keep]
        lits = {b: k for k, b in enumerate(sorted(keep))}
    c.config_header()
    with open(c.path('literals.h'), 'w') as f:
        f.write('static void literal(int N, std::ostream &O) {\n  unsigned long long V = 0;\n  switch (N) {\n')
        for b, k in lits.items():
            f.write('  case %d: { constexpr auto X = %s_b; V = X; break; }\n' % (k, ''.join(map(str, b))))
        f.write('  default: exit(3);\n  }\n  O << "\\"r\\":" << list(bitsOf(V));\n}\n')
    exe = c.compile('utility', ['utility.cpp'], flags=['-I' + c.scratch, '-fno-sanitize=alignment'])
    got = run_harness(c, exe, [line(e, lits) for e in calls], what='calls of the functions of utility.h')
    c.sample({'calls': [line(e, lits)[:80] for e in calls[-5:]]})
    events = [dict(e, **r) for e, r in zip(calls, got)]
    trace_check(c, 'UtilityTrace', [events[k:k + 40] for k in range(0, len(events), 40)])
