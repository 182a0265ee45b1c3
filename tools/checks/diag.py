"""Containers of diagnostics (C19)."""
import random
from mbt import *


def hx(s):
    return ''.join('%02x' % b for b in (s.encode('latin-1') if isinstance(s, str) else bytes(s))) or '-'


def line(ops):
    return ' '.join('%s %d %d %s %s %s %s %s %s ;' % (o['op'], o['i'], o['j'], hx(o['kind']), hx(o['code']), hx(o['pos']),
                                                      hx(o['fmt']), o['sig'], ' '.join(hx(a) for a in o['args'])) for o in ops)


def rand_text(rng, n):
    return ''.join(rng.choice('ab %"\\\n:()C0159{}[],' + chr(200)) if rng.random() < .7 else chr(rng.randint(1, 255)) for _ in range(n))


def number(rng):
    return str(rng.choice([0, 1, 9, 10, 101, 65535, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 64)]))


def history(rng, n, length, long=False):
    kinds = long * ['k' * 300, 'x y ' * 40] + ['e', 'error', 'warning', 'w:', '', 'redirect error', 'a%sb', '"q\\"', 'C1(2): x']
    ops = []
    kind = ['e'] * (n + 1)
    for _ in range(length):
        o = dict(op='', i=rng.randint(1, n), j=rng.randint(1, n), kind='', code='', pos='', fmt='', sig='-', args=[])
        p = rng.random()
        if p < .6:
            sig = rng.choice(['-', 's', 'd', 'c', 'ss', 'sd', 'cs', 'dcs', 'sssss', 'sdcsdcsd'])
            f = rand_text(rng, rng.choice([0, 1, 3, 8] + long * [60, 300])).replace('%', '%%')
            a = []
            for t in '' if sig == '-' else sig:
                f += '%' + t + rand_text(rng, rng.choice([0, 1, 2])).replace('%', '%%')
                a.append(rand_text(rng, rng.choice([0, 1, 5, 40, 300] + ([1000, 4096] if long else []))) if t == 's' else
                         str(rng.choice([0, -1, 7, 2147483647, -2147483648])) if t == 'd' else chr(rng.randint(1, 255)))
            o.update(op='insert', code=number(rng), pos=number(rng), fmt=f, sig=sig, args=a)
        elif p < .63:
            o.update(op='fail')
        elif p < .66:
            # the n-th formatting call inside an insertion fails
            o.update(op='fault', code=str(rng.randint(1, 6)))
        elif p < .7:
            o.update(op='clear')
        elif p < .8:
            o.update(op='new', kind=rng.choice(kinds))
            kind[o['i']] = o['kind']
        elif p < .9:
            o.update(op='swap')
            kind[o['i']], kind[o['j']] = kind[o['j']], kind[o['i']]
        else:
            a, b = kind[o['i']], kind[o['j']]
            # a kind that begins with another one makes the text ambiguous
            if o['i'] == o['j'] or (a != b and (a == '' or b == '' or a.startswith('C') or b.startswith('C'))):
                continue
            o.update(op='json')
        ops.append(o)
    return ops


def diagnostics(c):
    exe = c.compile('diag', ['diag.cpp'], opt='-O0', flags=['-fno-builtin-snprintf', '-U_FORTIFY_SOURCE', '-Wl,--wrap=snprintf', '-Wl,--wrap=vsnprintf'])
    res = c.tlc('DiagGen', cfg(consts={'Max': 3 if c.thorough else 2}, inv=('Prefixed',), constraint=('Small',),
                               action_constraint=('EmitEdge',), view='View', deadlock=False))
    tests = tours(printed(res))
    c.sample({'history': line(tests[0])[:300]})
    traces = run_harness(c, exe, [line(t) for t in tests], [2], jobs=8,
                         what='operations generated from the specification on the real Diagnostic')
    trace_check(c, 'DiagTrace', traces, consts={'N': 2})
    rng = random.Random(c.seed * 61)
    tests = [history(rng, 3, 40) for _ in range(800 if c.thorough else 60)]
    tests += [history(rng, 3, 8, True) for _ in range(200 if c.thorough else 16)]
    traces = run_harness(c, exe, [line(t) for t in tests], [3], jobs=8, what='a random history on the real Diagnostic')
    trace_check(c, 'DiagTrace', traces, consts={'N': 3}, chunk=10000)
