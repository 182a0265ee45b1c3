"""CSocket network server: data (C04), connection limit (C05), set-up (C06)."""
import itertools, random
import vlib
from mbt import *
from checks.conn import hx

INV = ('DeliveredPrefix', 'NoneLost', 'Limit', 'ClosedOnce', 'OneEnd', 'Setups', 'ReturnAfterFailure')


def design(c, **k):
    d = dict(NConn=1, Max=0, NChunk=1, NMsg=1, NL=1, NR=0, FailSetup='FALSE')
    d.update(k)
    c.tlc('CSocketMC', cfg(consts=d, inv=INV, props=('AllServed',)), timeout=700)


def resolved(a):
    if a == '-':
        return '0.0.0.0'
    p = a.split('.')
    return a if len(p) == 4 and all(x.isdigit() for x in p) else '10.0.0.1'


def conn(recv, msgs='-', sends='-', flags='11', lc='11'):
    return ':'.join([flags, recv, msgs, sends, lc])


def explore(c, exe, scen, what):
    """scen: dict(addr, port, max, buf, setup, closeok, accepts, conns, bound, maxexec, rnd)"""
    lines, par = [], {}
    for k, s in enumerate(scen):
        i = 's%d' % k
        d = dict(addr='127.0.0.1', port=8080, max=0, buf=16, setup='111111', closeok=1, accepts='-', conns=[],
                 bound=2, maxexec=300, rnd=50)
        d.update(s)
        assert all(len(x) for x in (d['addr'], d['setup'], d['accepts']))
        par[i] = dict(addr='' if d['addr'] == '-' else d['addr'], port=d['port'], resolved=resolved(d['addr']),
                      max=d['max'], buf=d['buf'])
        lines.append(' '.join(map(str, [i, d['addr'], d['port'], d['max'], d['buf'], d['setup'], d['closeok'],
                                        d['accepts'], ';'.join(d['conns']) or '-', d['bound'], d['maxexec'],
                                        d['rnd'], (c.seed * 7 + k * 31) & 0xffffff])))
    from concurrent.futures import ThreadPoolExecutor
    parts = [p for p in (lines[i::8] for i in range(8)) if p]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: c.run([exe], input='\n'.join(p) + '\n', timeout=500), parts))
    traces, seen = [], set()
    ex_n, cut = 0, 0
    for p, (rc, out, err) in zip(parts, res):
        if rc != 0:
            rc1, out1, err1 = c.run([exe], input='\n'.join(p) + '\n', timeout=500)
            if rc1 == 0:
                raise CheckError('exploration ended with %s once and with 0 on a repetition: %s' % (rc, err[-1500:]))
            raise Violation('%s: ended with %s (%s)' % (what, rc1, summarize(err1)),
                            'scenarios: %s\n%s' % ('\n'.join(p), err1[-7000:]))
        for g in out.splitlines():
            r = json.loads(g)
            if 'exec' in r:
                ex_n += r['exec']
                cut += not r['complete']
                continue
            t = r['t']
            t[0] = dict(t[0], **par[r['id']])
            k = json.dumps(t)
            if k not in seen:
                seen.add(k)
                traces.append(t)
    if not traces:
        raise CheckError('no executions')
    c.cov['schedules_executed'] = c.cov.get('schedules_executed', 0) + ex_n
    c.cov['scenarios'] = c.cov.get('scenarios', 0) + len(scen)
    c.cov['scenarios_cut_by_limit'] = c.cov.get('scenarios_cut_by_limit', 0) + cut
    c.sample({'scenario': lines[0], 'trace_events': len(traces[0])})
    trace_check(c, 'CSocketTrace', traces)
    return traces


def build(c):
    return c.compile('csock', ['csock.cpp', vlib.REPO + '/lib/Socket/CSocket/CSocket.cpp'])


def data(c):
    design(c, NChunk=3 if c.thorough else 2, NMsg=2, NL=2)
    design(c, NChunk=3, NMsg=0, NR=2)
    exe = build(c)
    scen = []
    recvs = ['E', 'X', '61,E', '61,X', '6100,62,E', '00,E', '616263,64,E', '61,62,63,X']
    msgs = ['-', 'e', 'g6162', 'm006100', 'g61,e', 'e,m6162', 'g,e', 'm']
    sends = ['A', '1,1', 'X', 'A,X', '1,X', '1,2,1,X']
    for r, m, s in itertools.product(recvs, msgs, sends):
        if m == '-' and s != 'A':
            continue
        for lc in ('11', '22') if c.thorough else (('11', '22')[(len(r) + len(m) + len(s)) % 2],):
            for cl in ('11', '10') if c.thorough or len(s) == 1 else ('11',):
                scen.append(dict(accepts='1', conns=[conn(r, m, s, cl, lc)], bound=0, maxexec=1, rnd=1))
    for lc in ('01', '31', '13'):
        scen.append(dict(accepts='1', conns=[conn('61,62,E', 'e', 'A', '11', lc)], bound=0, maxexec=1, rnd=1))
    # listeners that add others
    for r, m, l in itertools.product(('61,E', '61,62,E', '61,62,63,64,X', '6162,63,E'), ('r', 'r,r', 'e,r', 'r,e', 'c', 'c,r', 'c,c,c', 'd', 'd,d', 'c,d', 'd,r', 's', 's,d', 'e,s'), ('11', '21', '32')):
        scen.append(dict(accepts='1', conns=[conn(r, m, ('A', '1,X')[len(r) % 2], '11', l)], bound=0, maxexec=1, rnd=1))
    rng = random.Random(c.seed)

    def b(n):
        return hx([rng.choice([0, 36, 10, 97, 255, rng.randint(0, 255)]) for _ in range(n)])
    for _ in range(3000 if c.thorough else 400):
        recv = ','.join(b(rng.choice([1, 2, 5, 16, 17, 40])) for _ in range(rng.randint(0, 5)))
        recv = (recv + ',' if recv else '') + rng.choice(['E', 'X'])
        m = ','.join(rng.choice(['e', 'e', 'g' + b(rng.randint(0, 30)), 'm' + b(rng.randint(0, 9)), 'r', 'c', 'd', 's'])
                     for _ in range(rng.randint(0, 3))) or '-'
        s = ','.join(rng.choice(['A', '1', '2', '3', '7', 'A', 'X'][:rng.choice([6, 6, 7])]) for _ in range(rng.randint(1, 9)))
        scen.append(dict(accepts='1', buf=rng.choice([1, 2, 16, 65535]),
                         conns=[conn(recv, m, s, rng.choice(['11', '11', '10']), rng.choice(['11', '21', '12', '33']))],
                         bound=0, maxexec=1, rnd=1))
    # large chunks and messages
    for bs, ns, ms, s in [(65535, [4096, 65535], ['e', 'e'], '4096,A,1,65000,A'), (1000, [1000, 999, 1001, 3000], ['e', 'g' + b(5000)], '999,1,A,A,4999,A'),
                          (65535, [70000, 65536], ['m' + b(20000)], 'A,19999,A'), (300, [5000], ['e'], '299,A')]:
        scen.append(dict(accepts='1', buf=bs, conns=[conn(','.join(b(n) for n in ns) + ',E', ','.join(ms), s, '11', '21')],
                         bound=0, maxexec=1, rnd=0))
    # several connections at once: data of one never reaches another
    for a in ('1,2', '1,Z,2', '1,2,3'):
        cs = [conn('61,62,E', 'e', '1,A'), conn('6300,X', 'g64,m65', 'A'), conn('66,E', 'e', 'X', '10', '22')]
        scen.append(dict(accepts=a, conns=cs[:a.count(',') + (0 if 'Z' in a else 1)], bound=2 if c.thorough else 1,
                         maxexec=20000 if c.thorough else 250, rnd=2000 if c.thorough else 100))
    # connections which cannot be served are closed, too
    for f, m in itertools.product(('01', '00', '110', '100'), (0, 1)):
        scen.append(dict(max=m, accepts='1,2,3', conns=[conn('61,E', 'e'), conn('62,E', 'e', flags=f), conn('63,E', 'e', '1')],
                         bound=0, maxexec=1, rnd=20))
    explore(c, exe, scen, 'serving clients')


def limit(c):
    design(c, NConn=3, Max=2, NChunk=1 if c.thorough else 0, NMsg=0)
    design(c, NConn=2, Max=1, NChunk=1, NMsg=1)
    design(c, NConn=2, Max=1, NChunk=0, NMsg=0, FailSetup='TRUE')
    exe = build(c)
    scen = []
    small, echo, err = conn('E'), conn('61,E', 'e', 'A'), conn('X', 'g61', 'A', '10')
    noname = conn('E', flags='01')
    nonameX = conn('E', flags='00')
    mx = 15000 if c.thorough else 500
    for m in (0, 1, 2, 3):
        for a, cs in (('1', [small]), ('1,2', [small, small]), ('1,2', [echo, err]), ('1,2,3', [small, echo, err]),
                      ('1,2,3,4', [echo, small, err, small]), ('1,Z,2,3', [echo, err, small]),
                      ('Z,1', [echo]), ('1,2,3', [small, noname, small]), ('1,2', [nonameX, echo]),
                      ('1,2,3,4,5,6', [small, err, echo, noname, small, small])):
            n = len(cs)
            scen.append(dict(max=m, accepts=a, conns=cs, bound=(3 if n <= 2 else 2) - (0 if c.thorough else 1),
                             maxexec=mx if n <= 3 else mx // 2, rnd=1500 if c.thorough else 60))
    # a client which stays must not keep the place of one that has left, whoever came first
    for m, a, cs in ((2, '1,2,3', [conn('W3,E'), small, echo]), (2, '1,2,3', [small, conn('W3,E'), echo]),
                     (3, '1,2,3,4', [conn('W4,E'), conn('W4,61,E', 'e'), err, small]),
                     (3, '1,2,3,4,5', [small, conn('W5,E'), echo, conn('W5,X'), small]),
                     (2, '1,2,3,4', [conn('61,W4,62,E', 'e'), small, err, echo]),
                     (0, '1,2,3', [conn('W3,E'), conn('W3,X'), small]),
                     (3, '1,2,3,4,5', [conn('W2,E'), small, conn('W5,E'), echo, small])):
        scen.append(dict(max=m, accepts=a, conns=cs, bound=2 if c.thorough else 1, maxexec=mx // 2,
                         rnd=1000 if c.thorough else 40))
    # no thread can be created for a client: the server and its other clients go on
    nothr, nothrX = conn('61,E', 'e', flags='110'), conn('62,E', 'e', flags='100')
    for m, a, cs in ((0, '1', [nothr]), (0, '1', [nothrX]), (1, '1,2', [nothr, echo]), (1, '1,2', [nothrX, echo]),
                     (2, '1,2,3', [echo, nothr, small]), (2, '1,2,3,4', [conn('W4,E'), nothr, nothrX, echo]),
                     (0, '1,Z,2,3', [small, nothr, err]), (1, '1,2,3', [echo, nothr, noname]), (3, '1,2', [echo, nothr])):
        scen.append(dict(max=m, accepts=a, conns=cs, bound=2 if c.thorough else 1, maxexec=mx // 2,
                         rnd=1000 if c.thorough else 40))
    explore(c, exe, scen, 'schedules of clients arriving and leaving')


def setup(c):
    design(c, FailSetup='TRUE', NMsg=0)
    exe = build(c)
    scen = []
    addrs = ['-', '127.0.0.1', '0.0.0.0', '192.168.7.9', 'localhost', 'a.host.name', '255.255.255.255', '1.2.3.4']
    ports = [0, 1, 80, 256, 8080, 49151, 65535]
    for a, p in itertools.product(addrs, ports):
        for f in range(-1, 6):
            st = ''.join('0' if i == f else '1' for i in range(6))
            if a == '-' and f == 0:
                continue
            for ok in (0, 1):
                scen.append(dict(addr=a, port=p, setup=st, closeok=ok, bound=0, maxexec=1, rnd=0,
                                 accepts='1' if f < 0 else '-', conns=[conn('61,E', 'e', 'A')] if f < 0 else []))
    explore(c, exe, scen, 'setting up the server')
