"""IntrusiveConnection: replies (C01), ends of a connection (C02), framing (C03)."""
import itertools, random
from mbt import *

INV = ('NoUseAfterFree', 'RepliesInOrder', 'OneReplyEach', 'RejectedStays',
       'NoHandlerAfterClose', 'FalseOnlyOnClose')
LIVE = ('ChunkIsAnswered', 'CloseCompletes')


def hx(b):
    return bytes(b).hex()


def design(c):
    """The specification itself: all interleavings, with liveness."""
    c.tlc('ConnectionMC', cfg(consts={'Chunks': '<- ChunksLarge', 'MaxChunks': 3 if c.thorough else 2,
                                      'MaxAnswers': 6 if c.thorough else 4, 'Delim': 36},
                              inv=INV, props=LIVE))


def explore(c, exe, scen, timeout=400):
    """scen: (id, delim, peer, server, bound, max, rnd, spurious). Returns traces."""
    lines = ['%s %d %s %s %d %d %d %d %d' % (s[0], s[1], s[2], s[3] or '-', s[4], s[5], s[6],
                                           (c.seed * 1000003 + k) & 0x7fffffff, s[7])
             for k, s in enumerate(scen)]
    from concurrent.futures import ThreadPoolExecutor
    # interleave so that the work is spread evenly
    parts = [lines[i::8] for i in range(8)]
    parts = [p for p in parts if p]

    def one(p):
        return p, c.run([exe], input='\n'.join(p) + '\n', timeout=timeout)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, parts))
    traces, execs, incomplete = [], 0, 0
    delim = {s[0]: s[1] for s in scen}
    for p, (rc, out, err) in res:
        if rc != 0:
            rc1, out1, err1 = c.run([exe], input='\n'.join(p) + '\n', timeout=timeout)
            if rc1 == 0:
                raise CheckError('the schedule exploration ended with %s once and with 0 on a repetition: %s'
                                 % (rc, err[-1500:]))
            raise Violation('exploring schedules of a connection: ended with %s (%s)' % (rc1, summarize(err1)),
                            'scenarios: %s\n%s' % ('\n'.join(p), err1[-7000:]))
        for g in out.splitlines():
            r = json.loads(g)
            if 'exec' in r:
                execs += r['exec']
                incomplete += not r['complete']
            else:
                traces.append({'id': r['id'], 'd': delim[r['id']], 't': r['t']})
    uniq, seen = [], set()
    for t in traces:
        k = json.dumps([t['d'], t['t']])
        if k not in seen:
            seen.add(k)
            uniq.append(t)
    c.cov['schedules_executed'] = c.cov.get('schedules_executed', 0) + execs
    c.cov['scenarios'] = c.cov.get('scenarios', 0) + len(scen)
    c.cov['scenarios_cut_by_limit'] = c.cov.get('scenarios_cut_by_limit', 0) + incomplete
    c.sample({'scenario': lines[0], 'trace_events': len(uniq[0]['t']) if uniq else 0})
    return uniq


def build(c):
    return c.compile('conn', ['conn.cpp'])


A, B, D = 97, 98, 36
CHUNK1 = [[A], [A, D], [A, D, B], [D, D], [A, D, B, D, A]]


def replies(c):
    design(c)
    exe = build(c)
    scen, n = [], 0
    bound = 3 if c.thorough else 2
    mx = 60000 if c.thorough else 1500
    peers = [[[A]], [[A, D, B]], [[A], [B]], [[A, D, B], [A]], [[A, D, D, B, D, A]], [[A], [A, D, B], [B]]]
    servers = ['', 'A', 'AA', 'AAA', '*', 'AE', 'J', 'LA', 'AMA', 'YA']
    for p in peers:
        for s in servers:
            nreq = sum(len([x for x in bytes(ch).split(b'$') if x or True]) for ch in p)
            scen.append(('r%d' % n, D, ','.join(hx(ch) for ch in p) + ',C', s, bound, mx, 200 if not c.thorough else 3000, 0))
            n += 1
    # spurious wake-ups
    for p in peers[:4]:
        for s in ('A', '*', 'AA'):
            scen.append(('r%d' % n, D, ','.join(hx(ch) for ch in p) + ',C', s, bound - 1, mx, 100, 1))
            n += 1
    # slow handlers, servers and clients: time does not change anything
    for p in ['%s,C', 'Z,%s,Z,C', '%s,Z,%s,C']:
        for s in ['W', 'ZA', 'WW', 'AZ', 'WZA', 'Z*', 'WMW', 'Z']:
            scen.append(('r%d' % n, D, p.replace('%s', hx([A, D, B])), s, bound - 1, mx, 60, 0))
            n += 1
    # two connections at a time
    for p in ['%s,C/%s,C' % (hx([A, D, B]), hx([B, B, D, A])), '%s,%s,C/%s,C' % (hx([A]), hx([B]), hx([B, D, D, A, D])),
              '%s,C/%s,%s,C' % (hx([A, D, B, D, A]), hx([B]), hx([A, A]))]:
        for s in ['*/*', 'A/*', '-/AA', 'LA/J', 'W*/*', 'A/Z*']:
            scen.append(('t%d' % n, D, p, s, 1, mx // 4, 3000 if c.thorough else 250, 0))
            n += 1
    # long histories under random schedules
    rng = random.Random(c.seed)
    for _ in range(120 if c.thorough else 24):
        d = rng.choice([D, 0, 10])
        p = [[rng.choice([A, B, d, 255, 0, 10]) for _ in range(rng.randint(1, 8))] for _ in range(rng.randint(1, 5))]
        s = rng.choice(['*', 'A' * rng.randint(0, 12), 'AJELA*', 'EEE*', 'AMAMA*'])
        scen.append(('r%d' % n, d, ','.join(hx(ch) for ch in p) + ',C', s, 0, 1, 150, 0))
        n += 1
    traces = explore(c, exe, scen)
    trace_check_nd(c, 'ConnectionTrace', traces, inv=('NoUseAfterFree',))


def ends(c):
    design(c)
    exe = build(c)
    scen, n = [], 0
    bound = 4 if c.thorough else 3
    mx = 120000 if c.thorough else 2500
    for p in ['C', hx([A]) + ',C', hx([A, D, B]) + ',C', hx([A]) + ',' + hx([B]) + ',C']:
        for s in ['', 'A', '*', 'AA', 'Z', 'AZ', 'Z*', 'W', 'WZ*', 'WZ', '*F', '*FMF', 'M', 'MA*', 'MS*', 'Y', 'YAY']:
            scen.append(('e%d' % n, D, p, s, bound, mx, 200, 0))
            n += 1
    for p in ['C', hx([A]) + ',C']:
        for s in ['*', 'A']:
            scen.append(('e%d' % n, D, p, s, bound - 1, mx, 200, 2))
            n += 1
    # replaced connections: id starts with p
    for p in ['C', hx([A]) + ',C', hx([A, D, B]) + ',C']:
        for s in ['', 'A', '*']:
            scen.append(('p%d' % n, D, p, s, 1, mx, 400 if not c.thorough else 6000, 0))
            n += 1
    traces = explore(c, exe, scen)
    trace_check_nd(c, 'ConnectionTrace', traces, inv=('NoUseAfterFree',))


def framing(c):
    exe = build(c)
    scen, n = [], 0
    L = 6 if c.thorough else 5
    # every chunk up to length L over {a, $, other} with an answering server and with a server that leaves
    for d, other in ((D, A), (0, D), (10, 13), (255, 0)):
        for k in range(1, L + 1):
            for ch in itertools.product([d, other], repeat=k):
                for s in ('*', 'A') if k <= 4 else ('*',):
                    scen.append(('f%d' % n, d, hx(ch) + ',C', s, 0, 1, 0, 0))
                    n += 1
    rng = random.Random(c.seed * 31 + 5)
    for _ in range(2000 if c.thorough else 300):
        d = rng.choice([D, 0, 10, 13, 32, 127, 128, 255, A])
        alpha = [d, d] + [rng.randint(0, 255) for _ in range(4)] + [10, 0]
        p = []
        for _ in range(rng.randint(1, 4)):
            ln = rng.choice([1, 2, 3, 7, 16, 40, 300])
            p.append([rng.choice(alpha) for _ in range(ln)])
        scen.append(('f%d' % n, d, ','.join(hx(ch) for ch in p) + ',C', rng.choice(['*', '*', 'AAA', 'LJE*', 'L' * 3]),
                     0, 1, 2, 0))
        n += 1
    # large chunks: long pieces, many pieces
    for ln, rare in [(257, 3), (1024, 2), (1500, 40), (4097, 3), (5000, 1), (20000, 9), (70000, 5)] + ([(9000, 200), (70000, 3000)] if c.thorough else []):
        d = rng.choice([D, 0, 10])
        ch = [rng.choice([A, B, 0, 10, 36, 255]) for _ in range(ln)]
        ch = [x if x != d else A for x in ch]
        for _ in range(rare):
            ch[rng.randrange(ln)] = d
        scen.append(('f%d' % n, d, hx(ch) + ',' + hx([B, d, A]) + ',C', '*', 0, 1, 1, 0))
        n += 1
    traces = explore(c, exe, scen)
    trace_check_nd(c, 'ConnectionTrace', traces, inv=('NoUseAfterFree',))
