"""Redirection of descriptors to files (C15: output and position, C16: ownership)."""
import random
from concurrent.futures import ThreadPoolExecutor
from mbt import *


WRAPPED = 'fopen fopen64 fdopen fflush fgetc getc ftell ftello fseek fseeko fread dup2 lseek read fclose close snprintf'.split()


def line(ops):
    return ' '.join('%s %d %d %d %d %s %d %d ;' % (o['op'], o['i'], o['j'], o['x'], o['h'], o['m'] or '-', o['b'], o['n'])
                    for o in ops)


def build(c):
    return c.compile('redirect', ['redirect.cpp'], flags=['-include', 'memory', '-fno-builtin-snprintf', '-U_FORTIFY_SOURCE'] + ['-Wl,--wrap=' + f for f in WRAPPED])


def faulty(rng, tests, most):
    """The tests with library calls that fail in operations of objects."""
    out = []
    for t in tests:
        # the effects of these on what follows are known
        u = [dict(o, n=rng.randint(1, 6)) if o['op'] in ('isdiff', 'diff', 'setpos', 'move', 'drop') and rng.random() < .4 else o for o in t]
        out.append(u)
        # an opening that failed is followed by what every object allows
        fd = {}
        opens = []
        for k, o in enumerate(t):
            if o['op'] == 'open':
                if o['h'] and o['x'] not in fd.get(o['h'], ()):
                    opens.append(k)
                fd[o['h']] = (fd.get(o['h'], set()) if o['x'] == 0 or o['m'] == 'r' else set()) | {o['x']}
            elif o['op'] == 'close':
                fd[o['h']] = set()
        for k in rng.sample(opens, min(2, len(opens))):
            o, q = t[k], 3 - t[k]['i'] if t[k]['i'] < 3 else 1
            e = dict(op='', i=o['i'], j=0, x=0, h=0, m='', b=0, n=0)
            out.append(t[:k] + [dict(o, n=rng.randint(1, 7)), dict(e, op='isdiff'), dict(e, op='new', i=q, j=o['i']),
                                dict(e, op='isdiff', i=q), dict(e, op='drop', i=q), dict(e, op='close', h=o['h']), dict(o, n=rng.choice([0, 0, 1, 2, 3]))])
    return rng.sample(out, min(most, len(out)))


def edges(c, nf, nh, no, lens, bytes_, modes, maxsize, maxlen=60):
    odd = nf == 1 or c.thorough
    res = c.tlc('RedirectGen', cfg(consts={'NF': nf, 'NH': nh, 'NO': no, 'Odd': 'TRUE' if odd else 'FALSE', 'Len1': lens, 'Bytes': bytes_, 'Modes': modes,
                                           'MaxSize': maxsize},
                                   inv=('Canonical', 'AtEnd', 'Positions', 'OneOwner'),
                                   props=('Redirected', 'DiffIsWhatWasWritten'),
                                   constraint=('Small',), action_constraint=('EmitEdge',), view='View',
                                   deadlock=False), timeout=800)
    return tours(printed(res), maxlen)


def gen(c, exe, nf, nh, no, *args):
    check(c, exe, nf, nh, no, edges(c, nf, nh, no, *args), 'operations generated from the specification on the real RedirectIO')


def check(c, exe, nf, nh, no, tests, what, mute=0):
    """mute: of this many tests one is executed where messages cannot be formatted."""
    c.sample({'history': line(tests[len(tests) // 2])[:400]})
    traces = run_harness(c, exe, [('mute ' if mute and k % mute == 1 else '') + line(t) for k, t in enumerate(tests)], [nf, nh, no, c.scratch], jobs=8, what=what)
    for t in traces:
        for e in t:
            if e['o']['m'] == '-':
                e['o']['m'] = ''
            e['obj'] = [x if x else {} for x in e['obj']]
    trace_check(c, 'RedirectTrace', traces, consts={'NF': nf, 'NH': nh, 'NO': no})


def random_tests(rng, n, length, nf, nh, no, owner):
    tests = []
    for _ in range(n):
        fd = [0] * (nh + 1)
        ex = [True] + [False] * nf
        rd = [False] * (nf + 1)
        ob = [('none', 0)] * (no + 1)
        ops = []
        while len(ops) < length:
            o = dict(op='', i=0, j=0, x=0, h=0, m='', b=0, n=0)
            i, j, h = rng.randint(1, no), rng.randint(1, no), rng.randint(1, nh)
            p = rng.random()
            if p < (.25 if owner else .1):
                x = rng.choice([0, -1] + list(range(1, nf + 1)) * 3)
                if rng.random() < .1:
                    h = 0
                if x > 0 and (any(g != h and fd[g] == x for g in range(1, nh + 1)) or
                          any(q != i and ob[q] == ('open', x) for q in range(1, no + 1))):
                    continue
                m = rng.choice('wwaar' if x >= 0 else 'wr')
                o.update(op='open', i=i, x=x, h=h, m=m)
                if x == -1:
                    ob[i] = ('fail', x)
                    if h:
                        fd[h] = -1
                elif x == 0 or (m == 'r' and not ex[x]):
                    ob[i] = ('fail', x)
                else:
                    ex[x] = True
                    ob[i] = ('fail', x) if h == 0 else ('open', x)
                    if h:
                        fd[h], rd[x] = x, m == 'r'
            elif p < .5:
                if fd[h] <= 0:
                    continue
                if rng.random() < .2:
                    o.update(op='get', h=h, n=rng.choice([1, 3, 100, 5000, 70000]))
                else:
                    o.update(op='put', h=h, b=rng.choice([0, 10, 97, 98, 255, 32]),
                             n=rng.choice([1, 1, 2, 7, 99, 100, 101, 200, 300, 4095, 4096, 4097, 9000] + ([65535, 65537, 150000, 1 << 20] if rng.random() < .2 else [])))
            elif p < .88 if not owner else p < .72:
                op = rng.choice(['isdiff', 'isdiff', 'diff', 'diff', 'diff', 'setpos', 'reset'])
                k, x = ob[i]
                if k == 'moved' or (op != 'isdiff' and k != 'open'):
                    continue
                o.update(op=op, i=i)
            elif p < (.95 if not owner else .85):
                op = rng.choice(['move', 'new'])
                if op == 'new' and i == j:
                    continue
                o.update(op=op, i=i, j=j)
                if i != j:
                    ob[i], ob[j] = ob[j], ('moved', 0)
            elif p < .98 or owner and rng.random() < .8:
                o.update(op='drop', i=i)
                ob[i] = ('none', 0)
            else:
                o.update(op='close', h=h)
                fd[h] = 0
            ops.append(o)
        tests.append(ops)
    return tests


def output(c):
    exe = build(c)
    gen(c, exe, 1, 1, 1, '{1, 2}', '{0, 97}', '{"w", "a", "r"}', 4 if c.thorough else 3)
    if c.thorough:
        gen(c, exe, 2, 1, 1, '{1, 2}', '{0, 97}', '{"w", "a", "r"}', 2)
    rng = random.Random(c.seed * 41)
    check(c, exe, 2, 2, 3, random_tests(rng, 600 if c.thorough else 60, 80, 2, 2, 3, False),
          'a random history on the real RedirectIO')


def owner(c):
    rng = random.Random(c.seed * 59)
    with ThreadPoolExecutor(3) as ex:
        exe = ex.submit(build, c)
        one = ex.submit(edges, c, 1, 1, 2, '{1}', '{97}', '{"w", "a", "r"}', 2 if c.thorough else 1)
        two = ex.submit(edges, c, 2, 1, 2, '{1}', '{97}', '{"w", "a"}' if c.thorough else '{"w"}', 1)
        exe, one, two = exe.result(), one.result(), two.result()
    what = 'operations generated from the specification on the real RedirectIO'
    fail = ' with failing library calls'
    check(c, exe, 1, 1, 2, faulty(rng, one, 20000 if c.thorough else 2000), what + fail, 5)
    check(c, exe, 1, 1, 2, one if c.thorough else rng.sample(one, min(len(one), 2500)), what)
    check(c, exe, 2, 1, 2, two, what)
    tests = random_tests(rng, 300 if c.thorough else 25, 40, 2, 2, 3, False)
    check(c, exe, 2, 2, 3, faulty(rng, tests, 1000 if c.thorough else 60), 'a random history on the real RedirectIO' + fail, 4)
    rng = random.Random(c.seed * 43)
    check(c, exe, 3, 2, 3, random_tests(rng, 600 if c.thorough else 60, 80, 3, 2, 3, True),
          'a random history on the real RedirectIO')
