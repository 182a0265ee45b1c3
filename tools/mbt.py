"""Both directions of conformance: behaviours printed by TLC executed on the
real code, and executions of the real code checked by TLC against a spec."""
import json, os, re
from vlib import Violation, CheckError, log


def cfg(spec='Spec', consts=None, inv=(), props=(), constraint=(), action_constraint=(),
        view=None, deadlock=True, post=None, sym=None):
    o = ['SPECIFICATION ' + spec]
    for k, v in (consts or {}).items():
        # a value that a configuration file cannot express is a definition: '<-Name'
        o.append('CONSTANT %s %s' % (k, v if str(v).startswith('<-') else '= %s' % v))
    for i in inv:
        o.append('INVARIANT ' + i)
    for p in props:
        o.append('PROPERTY ' + p)
    for x in constraint:
        o.append('CONSTRAINT ' + x)
    for x in action_constraint:
        o.append('ACTION_CONSTRAINT ' + x)
    if view:
        o.append('VIEW ' + view)
    if post:
        o.append('POSTCONDITION ' + post)
    if sym:
        o.append('SYMMETRY ' + sym)
    o.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    return '\n'.join(o) + '\n'


def printed(res):
    """The JSON values that the specification printed with PrintT(ToJson(x))."""
    for line in res['out'].splitlines():
        if line.startswith('"[') or line.startswith('"{'):
            try:
                yield json.loads(json.loads(line))
            except ValueError:
                raise CheckError('unreadable TLC output: ' + line[:300])


def drop_prefixes(paths):
    """Keeps the behaviours that are not a prefix of another one."""
    seen, out = set(), []
    for p in sorted(paths, key=lambda p: -len(p)):
        key = [json.dumps(x, sort_keys=True) for x in p]
        if tuple(key) in seen:
            continue
        for k in range(1, len(key) + 1):
            seen.add(tuple(key[:k]))
        out.append(p)
    return out


def run_harness(c, exe, lines, args=(), timeout=300, env=None, what='the harness', jobs=1):
    """Feeds tests (one text line each) to an executor that answers one JSON line
    per test. A crash, sanitizer report or hang is a violation."""
    if jobs > 1 and len(lines) >= jobs * 4:
        from concurrent.futures import ThreadPoolExecutor
        n = (len(lines) + jobs - 1) // jobs
        parts = [lines[i:i + n] for i in range(0, len(lines), n)]
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda p: run_harness(c, exe, p, args, timeout, env, what), parts))
        return [x for r in res for x in r]
    inp = '\n'.join(lines) + '\n'
    rc, out, err = c.run([exe, *map(str, args)], input=inp, timeout=timeout, env=env)
    got = out.splitlines()
    if rc != 0:
        n = len([g for g in got if g.endswith((']', '}'))])
        # confirm on the offending test alone, then within the whole batch
        bad = lines[min(n, len(lines) - 1)]
        rc1, out1, err1 = c.run([exe, *map(str, args)], input=bad + '\n', timeout=60, env=env)
        if rc1 == 0:
            rc1, out1, err1 = c.run([exe, *map(str, args)], input=inp, timeout=timeout, env=env)
            if rc1 == 0:
                raise CheckError('%s ended with %s once and with 0 on a repetition: %s'
                                 % (what, rc, err[-1500:]))
        raise Violation('%s ended with %s (%s)' % (what, rc1, summarize(err1)),
                        'test: %s\nstdout: %s\nstderr: %s' % (bad, out1[-3000:], err1[-6000:]))
    if len(got) != len(lines):
        raise CheckError('%s answered %d of %d tests' % (what, len(got), len(lines)))
    res = []
    for i, g in enumerate(got):
        try:
            res.append(json.loads(g))
        except ValueError:
            raise CheckError('unreadable harness output for %s: %s' % (lines[i], g[:300]))
    return res


def summarize(err):
    m = re.search(r'(SUMMARY: .*|runtime error: .*|Assertion .*|terminate called.*)', err)
    return m.group(1) if m else err.strip().splitlines()[-1][:200] if err.strip() else 'no message'


def trace_check(c, module, traces, consts=None, env=None, chunk=60000, timeout=600, name='trace',
                desc=lambda t: t, max_traces=None, workers=None):
    """Every trace (a list of events) must be a behaviour of the trace spec, whose
    initial states choose the trace (tid) and which deadlocks at an event that
    the specification does not allow."""
    cf = cfg(consts=consts, deadlock=True)
    i, k = 0, 0
    while i < len(traces):
        n, j = 0, i
        while j < len(traces) and (j == i or n + len(traces[j]) <= chunk):
            n += len(traces[j])
            j += 1
        part = traces[i:j]
        f = c.path('%s_%d.ndjson' % (name, k))
        with open(f, 'w') as fo:
            for t in part:
                fo.write(json.dumps({'t': t}, separators=(',', ':')) + '\n')
        e = dict(env or {})
        e['TRACE_FILE'] = f
        res = c.tlc(module, cf, env=e, timeout=timeout, expect_ok=False, workers=workers)
        if res['rc'] == 11:   # deadlock: a rejected trace
            tid, l = last_tid(res['out'])
            bad = part[tid - 1]
            # repeat on this trace alone
            f1 = c.path('%s_bad.ndjson' % name)
            with open(f1, 'w') as fo:
                fo.write(json.dumps({'t': bad}) + '\n')
            e['TRACE_FILE'] = f1
            r2 = c.tlc(module, cf, env=e, timeout=timeout, expect_ok=False, count=False)
            if r2['rc'] != 11:
                raise CheckError('a rejection by %s did not repeat' % module)
            ev = bad[l - 1] if l <= len(bad) else None
            raise Violation('the recorded execution is not a behaviour of %s: event %d is not allowed: %s'
                            % (module, l, json.dumps(ev)[:1500]),
                            'trace up to the rejected event:\n' +
                            '\n'.join(json.dumps(x) for x in bad[:l]) +
                            '\n\nstate of the specification before it:\n' + tail_state(res['out']))
        if res['rc'] != 0:
            raise CheckError('TLC on %s: %s' % (module, res['out'][-3000:]))
        os.unlink(f)
        c.cov['traces_validated_against_impl'] += len(part)
        i, k = j, k + 1


def last_tid(out):
    t = re.findall(r'^/\\ tid = (\d+)', out, re.M)
    l = re.findall(r'^/\\ l = (\d+)', out, re.M)
    if not t or not l:
        raise CheckError('no state in the TLC report: ' + out[-2000:])
    return int(t[-1]), int(l[-1])


def tail_state(out):
    i = out.rfind('\nState ')
    return out[i:i + 4000]


def trace_check_nd(c, module, traces, consts=None, env=None, chunk=40000, timeout=600, name='ndtrace',
                   inv=(), extra_cfg=''):
    """As trace_check for specifications with unlogged steps: a trace is accepted
    when some behaviour of the specification consumes all of it (Accepted)."""
    cf = cfg(consts=consts, deadlock=False, constraint=('Reach',), post='Accepted', inv=inv) + extra_cfg
    parts, cur, n = [], [], 0
    for t in traces:
        if cur and n + len(t['t']) > chunk:
            parts.append(cur)
            cur, n = [], 0
        cur.append(t)
        n += len(t['t'])
    if cur:
        parts.append(cur)

    def one(k, part, count=True):
        f = c.path('%s_%d.ndjson' % (name, k))
        with open(f, 'w') as fo:
            for t in part:
                fo.write(json.dumps(t, separators=(',', ':')) + '\n')
        e = dict(env or {})
        e['TRACE_FILE'] = f
        res = c.tlc(module, cf, env=e, timeout=timeout, expect_ok=False, workers=1, count=count)
        os.unlink(f)
        return res
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        results = list(ex.map(lambda kp: one(*kp), enumerate(parts)))
    for part, res in zip(parts, results):
        m = re.search(r'<<"REJECTED", (\d+), (\d+)>>', res['out'])
        if m:
            tid, l = int(m.group(1)), int(m.group(2))
            bad = part[tid - 1]
            r2 = one(10 ** 6, [bad], False)
            if not re.search(r'<<"REJECTED", 1, ', r2['out']):
                raise CheckError('a rejection by %s did not repeat' % module)
            ev = bad['t'][l - 1] if 1 <= l <= len(bad['t']) else None
            raise Violation('the recorded execution is not a behaviour of %s: event %d is not allowed: %s'
                            % (module, l, json.dumps(ev)[:1500]),
                            'trace: %s\nevents up to the rejected one:\n' %
                            json.dumps({k: v for k, v in bad.items() if k != 't'}) +
                            '\n'.join(json.dumps(x) for x in bad['t'][:l]))
        if res['rc'] != 0:
            raise CheckError('TLC on %s: %s' % (module, res['out'][-3000:]))
        c.cov['traces_validated_against_impl'] += len(part)


def tours(edges, maxlen=60):
    """Edges {s, o, t} of a state graph (s, t: states as text; the first edge starts
    in the initial state) -> operation sequences from the initial state which
    together take every edge."""
    from collections import deque
    out, init = {}, None
    for e in edges:
        if init is None:
            init = e['s']
        out.setdefault(e['s'], []).append((e['o'], e['t']))
    if init is None:
        raise CheckError('no transitions generated')
    # breadth-first tree from the initial state
    todo = {s: list(range(len(v))) for s, v in out.items()}
    left = sum(len(v) for v in todo.values())
    parent, order = {init: None}, deque([init])
    while order:
        s = order.popleft()
        for k, (o, t) in enumerate(out.get(s, ())):
            if t not in parent:
                parent[t] = (s, k)
                order.append(t)

    def path_to(s):
        p = []
        while parent[s] is not None:
            s, k = parent[s]
            p.append((s, k))
        return p[::-1]
    pending = deque(s for s in parent if todo.get(s))
    far = set()    # states without an edge not yet taken nearby
    res = []
    while left:
        while not todo.get(pending[0]):
            pending.popleft()
        steps, cur = [], init
        for s, k in path_to(pending[0]):
            steps.append(out[s][k][0])
            if k in todo[s]:
                todo[s].remove(k)
                left -= 1
            cur = out[s][k][1]
        while len(steps) < maxlen:
            if todo.get(cur):
                k = todo[cur].pop()
                left -= 1
                steps.append(out[cur][k][0])
                cur = out[cur][k][1]
                continue
            # a short way to an edge not yet taken
            if cur in far:
                break
            seen, dq, hit = {cur: None}, deque([(cur, 0)]), None
            while dq and hit is None:
                s, d = dq.popleft()
                if d >= 3:
                    break
                for k, (o, t) in enumerate(out.get(s, ())):
                    if t in seen:
                        continue
                    seen[t] = (s, k)
                    if todo.get(t):
                        hit = t
                        break
                    dq.append((t, d + 1))
            if hit is None:
                far.add(cur)
                break
            way = []
            while seen[hit] is not None:
                way.append(seen[hit])
                hit = seen[hit][0]
            for s, k in way[::-1]:
                steps.append(out[s][k][0])
                cur = out[s][k][1]
        res.append(steps)
    return res
