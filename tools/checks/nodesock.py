"""The Node.js addon (C24)."""
import hashlib, random, shutil
from mbt import *
from vlib import REPO, HARNESS


def rand_bytes(rng):
    k = rng.random()
    if k < .15:
        return []
    if k < .4:
        return [rng.choice([0, 0, 10, 36, 255, 128, 97]) for _ in range(rng.randint(1, 6))]
    if k < .95:
        return [rng.randrange(256) for _ in range(rng.randint(1, 30))]
    return [rng.randrange(256) for _ in range(rng.randint(200, 600) if k < .999 else rng.randint(65530, 70000))]


def fill(ops, rng):
    return [dict(o, b=rand_bytes(rng) if o['op'] == 'data' else [], v=rng.randrange(200)) for o in ops]


def history(rng, length):
    st, ops = {1: 'none', 2: 'none', 3: 'none'}, []
    for _ in range(length):
        c = rng.randint(1, 3)
        o = dict(op='', c=c, nr=0, nc=0, late=0, err=False)
        if rng.random() < .08:
            o['op'] = 'badconnect'
        elif rng.random() < .06:
            o['op'] = 'gc'
        elif st[c] in ('none', 'closed'):
            o['op'], st[c] = 'connect', 'open'
        elif st[c] == 'open':
            o.update(op='start', nr=rng.choice([0, 1, 1, 2, 3, 6]), nc=rng.choice([0, 1, 1, 2, 3, 6]), late=rng.choice([0, 0, 1, 3]))
            st[c] = 'on'
        else:
            o['op'] = rng.choice(['data'] * 8 + ['baddata', 'badclose', 'close'])
            if o['op'] == 'close':
                o['err'] = rng.random() < .5
                st[c] = 'closed'
        ops.append(o)
    return fill(ops, rng)


def build(c):
    src = [REPO + '/lib/Socket/NodeJSSocket/NodeJSSocket.cpp', 'nodesrv.cpp']
    asan = subprocess_out(['g++', '-print-file-name=libasan.so'])
    return c.compile('bclSocket.node', src, san=True, opt='-O0', flags=[
        '-std=gnu++20', '-fPIC', '-shared', '-DNODE_GYP_MODULE_NAME=bclSocket', '-DBUILDING_NODE_EXTENSION',
        '-fno-sanitize=vptr', '-isystem', '/usr/include/node']), asan


def subprocess_out(cmd):
    import subprocess
    return subprocess.run(cmd, capture_output=True, text=True).stdout.strip()


def digest(t):
    """Long messages, which are only compared, by their length and digest."""
    for e in t:
        if len(e.get('b', ())) > 200:
            h = hashlib.sha256(str(e['b']).encode()).digest()
            e['b'] = [-2, len(e['b'])] + list(h)
    return t


def execute(c, addon, asan, tests, what, k=[0]):
    from concurrent.futures import ThreadPoolExecutor
    node = shutil.which('node')
    if not node:
        raise CheckError('node is not installed')

    def part(n):
        mine = tests[n::6]
        if not mine:
            return []
        k[0] += 1
        driver = os.path.join(HARNESS, 'nodedriver.js')
        return run_harness(c, node, [json.dumps(t) for t in mine],
                           ['--expose-gc', driver, addon, c.path('log%d_%d' % (n, k[0]))], what=what, timeout=300,
                           env={'LD_PRELOAD': asan, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99'})
    with ThreadPoolExecutor(6) as ex:
        return [digest(t) for p in ex.map(part, range(6)) for t in p]


def addon(c):
    c.config_header()
    lib, asan = build(c)
    rng = random.Random(c.seed * 37 + 1)
    res = c.tlc('NodeSocketGen', cfg(consts={'NC': 2, 'MaxL': 2 if c.thorough else 1, 'Late': '{0, 1}' if c.thorough else '{0}'}, inv=('Own',), props=('Others',),
                                     action_constraint=('EmitEdge',), view='View', deadlock=False))
    tests = [fill(t, rng) for t in tours(printed(res))]
    log('%d generated tests' % len(tests))
    traces = execute(c, lib, asan, tests, 'operations generated from the specification on the real addon')
    tests = [history(rng, 60) for _ in range(300 if c.thorough else 40)]
    c.sample({'history': [(o['op'], o['c']) for o in tests[0]][:20]})
    traces += execute(c, lib, asan, tests, 'a random history of the real addon')
    trace_check(c, 'NodeSocketTrace', traces)
