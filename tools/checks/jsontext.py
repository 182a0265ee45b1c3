"""JSON: round trip (C12), texts accepted and rejected (C13), named objects (C14)."""
import json, random, struct, time
from concurrent.futures import ThreadPoolExecutor
from mbt import *

INTS = ('int', 'uint', 'long', 'ulong', 'llong', 'ullong')


def codes(s):
    return list(s.encode() if isinstance(s, str) else s)


def S(k):
    return {'k': k}


SUB = {'k': 'obj', 'n': 'Sub', 'f': [['X', S('str')], ['Y', {'k': 'opt', 'e': S('int')}]], 'd': [[], []]}
VI, VS = {'k': 'vec', 'e': S('int')}, {'k': 'vec', 'e': S('str')}
HUMAN = {'k': 'obj', 'n': 'Human', 'f': [['Name', S('str')], ['Age', S('uint')], ['Tags', VS], ['Inner', SUB]],
         'd': [[], codes('7'), [], SUB['d']]}
DOG = {'k': 'obj', 'n': 'Dog', 'f': [['Name', S('str')], ['List', VI], ['Map', {'k': 'map', 'q': S('str'), 'e': S('int')}]],
       'd': [[], [], []]}
NIL = {'k': 'obj', 'n': 'Nil', 'f': [], 'd': []}
REF = {'k': 'obj', 'n': 'Ref', 'f': [['A', {'k': 'nptr', 'e': S('int')}], ['S', {'k': 'nptr', 'e': S('chars')}],
                                     ['Z', {'k': 'nptr', 'e': S('str')}]], 'd': [[], [], []]}
# objects with 1 to 30 members, declared by the macros for each number of members
MEMBERS = [('int', 'int'), ('str', 'std::string'), ('bool', 'bool'), ('map int str', 'std::map<int, std::string>'),
           ('opt int', 'std::optional<int>'), ('vec str', 'std::vector<std::string>'), ('uint', 'unsigned')]
PAIR_PARTS = 3


def pair_name(root, n):
    return '%s%d' % ('Top' if root else 'Plain', n)


def pair_members(root, n):
    return [('M%d' % i if i % 3 else 'Member_%d' % i, MEMBERS[(i + n + root) % len(MEMBERS)]) for i in range(1, n + 1)]


def pairs_header(parts):
    out = []
    for k in range(parts):
        out.append('#if PART == %d' % (6 + k))
        names = []
        for root in (0, 1):
            for n in range(1, 31):
                if (n + root) % parts != k:
                    continue
                t, m = pair_name(root, n), pair_members(root, n)
                names.append(t)
                out.append('JSON_OBJECT_BEGIN(%s)\nJSON_OBJECT_%sPAIR%s(%s, %s)' % (
                    t, 'ROOT_' * root, '_%d' % n if n > 1 else '', t, ', '.join('%s, BCL_JOIN(%s)' % (a, b[1]) for a, b in m)))
                zero = ''.join((' (*this)[%s::%s] = {};' % (t, a)) for a, b in m)
                out.append('  %s()%s {%s }\nJSON_OBJECT_END(%s)\nJSON_DEFAULT_TRAITS(::, %s)' % (t, ' : JSON_INIT_ROOT' * root, zero, t, t))
                out.append('template<> struct V<%s> {\n  static void in(istream &I, %s &X) { %s }\n  static string out(const %s &X) { return %s; }\n};' % (
                    t, t, ' '.join('FIELD_IN(%s, %s)' % (t, a) for a, b in m), t,
                    '"["' + ' + string(",")'.join(' + FIELD_OUT(%s, %s)' % (t, a) for a, b in m) + ' + "]"'))
        out.append('void part%d() {' % (6 + k) + ''.join(' def<%s>("%s");' % (t, t) for t in names) + ' }\n#endif')
    return '\n'.join(out) + '\n'


OBJS = {'Sub': SUB, 'Human': HUMAN, 'Dog': DOG, 'Nil': NIL, 'Ref': REF}


PAIRS = []
ZERO = {'int': codes('0'), 'uint': codes('0'), 'bool': codes('false')}


def ty(name):
    """The type of a name like 'map str vec int'."""
    w = name.split()

    def one():
        k = w.pop(0)
        if k in OBJS:
            return OBJS[k]
        if k in ('vec', 'set', 'opt', 'ptr', 'nptr'):
            e = one()
            return {'k': k, 'e': S('chars') if k == 'nptr' and e['k'] == 'char' else e}
        if k in ('map', 'mmap'):
            q = one()
            return {'k': k, 'q': q, 'e': one()}
        return S(k)
    return one()


NAMES = ['int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'bool', 'char', 'str', 'dec', 'flt', 'vec int', 'vec str',
         'vec vec int', 'vec char', 'set int', 'set str', 'vec set int', 'map str int', 'map int str', 'map bool int',
         'map str vec int', 'map uint map str int', 'mmap str int', 'mmap int str', 'opt int', 'opt str', 'opt bool',
         'vec opt int', 'vec flt', 'vec dec', 'map str opt str', 'opt vec int', 'vec opt vec str', 'map char vec dec', 'Sub', 'vec Sub',
         'map str Sub', 'Human', 'Dog', 'ptr int', 'ptr str', 'ptr char', 'ptr Sub']

# types with pointers that may be null: written and read back
NULLS = ['Ref', 'map str nptr int', 'mmap int nptr char', 'map char nptr str']


for _root in (0, 1):
    for _n in range(1, 31):
        _t, _m = pair_name(_root, _n), pair_members(_root, _n)
        OBJS[_t] = {'k': 'obj', 'n': _t, 'f': [[a, ty(b[0])] for a, b in _m], 'd': [ZERO.get(b[0], []) for a, b in _m]}
        PAIRS.append(_t)


def spec(t):
    """The type as the specification sees it."""
    if t['k'] == 'obj':
        return {'k': 'obj', 'f': [[codes(n), spec(x)] for n, x in t['f']], 'd': t['d']}
    r = {'k': t['k']}
    for x in ('e', 'q'):
        if x in t:
            r[x] = spec(t[x])
    return r


SPEC = {n: spec(ty(n)) for n in NAMES + NULLS + PAIRS}
ROOTS = [[codes(n), spec(OBJS[n])] for n in ('Human', 'Dog', 'Nil')]
LIM = {'int': (-2**31, 2**31 - 1), 'uint': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'llong': (-2**63, 2**63 - 1),
       'ulong': (0, 2**64 - 1), 'ullong': (0, 2**64 - 1)}
NASTY = b'"\\/\n\t\v\f\r ,:{}[]abn0\x00\x01\x7f\x80\xff'


class Gen:
    def __init__(self, rng):
        self.r = rng

    def text(self, n=6, nul=True):
        r = self.r
        k = r.random()
        if k < .1:
            return r.choice([b'null', b'true', b'12', b'-3', b'name', b'\\"', b'"', b'\\', b'\\\\', b'a\\', b'', b'[1]', b'"q"'])
        alpha = NASTY if k < .8 else bytes(range(256))
        t = bytes(r.choice(alpha) for _ in range(r.randint(0, n) if k < .97 else r.randint(15, 80)))
        return t if nul else t.replace(b'\0', b'')

    def scalar(self, k, t=None):
        r = self.r
        if k in LIM:
            lo, hi = LIM[k]
            return str(r.choice([lo, hi, 0, 1, min(hi, 10), max(lo, -10), r.randint(lo, hi), r.randint(max(lo, -99), 99)])).encode()
        if k == 'bool':
            return r.choice([b'true', b'false'])
        if k == 'char':
            return bytes([r.choice(NASTY)])
        if k == 'chars':
            return self.text(nul=False)
        if k in ('dec', 'flt'):
            if k == 'flt':
                v = r.randint(-8000, 8000) / 8
            else:
                v = r.choice([r.randint(-10**12, 10**12) / 10**6, r.randint(-10**6, 10**6) / 10**6, 0.0, 1.5, -0.25])
            return b'%.6f' % v
        return self.text()

    def val(self, t):
        r, k = self.r, t['k']
        if k == 'ptr':
            return self.text(nul=False) if t['e']['k'] == 'char' else self.val(t['e'])
        if k in ('opt', 'nptr'):
            return None if r.random() < .4 else [self.val(t['e'])]
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        if k in ('vec', 'set', 'map') and r.random() < .04 and 'e' not in t['e'] and 'f' not in t['e']:
            n = r.randint(9, 24)    # more than ten: indexes of two digits
        if k == 'vec':
            return [self.val(t['e']) for _ in range(n)]
        if k == 'set':
            return sorted({self.scalar(t['e']['k']) for _ in range(n)})
        if k == 'map':
            return [(q, self.val(t['e'])) for q in sorted({self.scalar(t['q']['k']) for _ in range(n)})]
        if k == 'mmap':
            qs = [self.scalar(t['q']['k']) for _ in range(2)]
            return [(r.choice(qs), self.val(t['e'])) for _ in range(n)]
        if k == 'obj':
            return [self.val(x) for _, x in t['f']]
        return self.scalar(k, t)

    # text that denotes a value, in one of the accepted ways
    def sp(self):
        return self.r.choice([b'', b'', b'', b' ', b'\n', b'\t \r\n'])

    def quoted(self, b):
        out = b''
        for c in b:
            c = bytes([c])
            esc = {b'\n': b'\\n', b'\t': b'\\t', b'\v': b'\\v', b'\f': b'\\f', b'\r': b'\\r', b'"': b'\\"', b'\\': b'\\\\'}
            if c in b'"\\' or c in esc and self.r.random() < .7:
                out += esc[c]
            elif c == b'/' and self.r.random() < .5:
                out += b'\\/'
            else:
                out += c
        return b'"' + out + b'"'

    def render(self, t, v):
        r, k = self.r, t['k']
        sp = self.sp
        if k == 'opt':
            return b'null' if v is None else self.render(t['e'], v[0])
        if k == 'ptr':
            if t['e']['k'] == 'char':
                return self.quoted(v) if r.random() < .5 else self.render({'k': 'vec', 'e': t['e']}, [bytes([c]) for c in v])
            return self.render(t['e'], v) if r.random() < .5 else self.render({'k': 'vec', 'e': t['e']}, [v, v])
        if k in ('vec', 'set'):
            it = [self.render(t['e'], x) for x in v]
            if k == 'vec' and r.random() < .4:
                idx = list(range(len(it)))
                r.shuffle(idx)
                return self.braces([(self.quoted(r.choice([b'', b'', b'', b'0', b'+']) + b'%d' % i), it[i]) for i in idx])
            if k == 'set':
                r.shuffle(it)
            return b'[' + sp() + (sp() + b',' + sp()).join(it) + sp() + b']'
        if k in ('map', 'mmap'):
            it = [(self.quoted(q), self.render(t['e'], x)) for q, x in v]
            if k == 'map':
                r.shuffle(it)
            return self.braces(it)
        if k == 'obj':
            return self.braces(self.members(t, v))
        if k in ('str', 'char'):
            return self.quoted(v)
        if k == 'bool':
            return v if r.random() < .7 else b'"' + v + b'"'
        if k in ('dec', 'flt'):
            v = r.choice([v, v.rstrip(b'0'), b'0' + v if v[:1] != b'-' else v])
            return v
        return r.choice([v, v, b'"' + v + b'"', b'+' + v if v[:1] != b'-' else v, b'"0%s"' % v if v[:1] != b'-' else v])

    def members(self, t, v):
        r = self.r
        it = [(b'"' + n.encode() + b'"', self.render(x, y)) for (n, x), y in zip(t['f'], v) if r.random() < .9]
        r.shuffle(it)
        while r.random() < .35:
            it.insert(r.randint(0, len(it)), (r.choice([b'"zz"', b'"Nam"', b'"Names"', b'"\\"Name"', b'""', b'"Name\\n"', b'"name"'][:6]),
                                              self.junk()))
        return it

    def junk(self, d=0):
        r = self.r
        k = r.random()
        if k < .45 or d > 2:
            return r.choice([b'1', b'"x}"', b'"]{"', b'true', b'null', b'-2.5', b'"a\\"b"', b'""'])
        if k < .7:
            return b'[' + b','.join(self.junk(d + 1) for _ in range(r.randint(0, 3))) + b']'
        return self.braces([(b'"%s"' % r.choice([b'a', b'name', b'Name', b'}']), self.junk(d + 1)) for _ in range(r.randint(0, 3))])

    def braces(self, it):
        sp = self.sp
        return b'{' + sp() + (sp() + b',' + sp()).join(k + sp() + b':' + sp() + v for k, v in it) + sp() + b'}'

    def mutate(self, t, dec):
        r = self.r
        punct = b'{}[],:"\\ 0123-+./' + (b'' if dec else b'\0tn')
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randint(0, len(t))
            k = r.random()
            if k < .3:
                t = t[:i] + t[i + 1:]
            elif k < .6:
                t = t[:i] + bytes([r.choice(punct)]) + t[i:]
            elif k < .75:
                t = t[:i] + bytes([r.choice(punct)]) + t[i + 1:]
            elif k < .85:
                t = t[:i]
            elif k < .95:
                j = r.randint(0, len(t))
                t = t[:i] + t[min(i, j):max(i, j)][:8] + t[i:]
            else:
                t = t + r.choice([b',', b' ', b'x', b'}', b']', b'{}', b'1', b'"', b'true', b'\n'])
        return t


def hx(b):
    return b.hex() or '-'


def desc(t, v):
    """A value for the harness."""
    k = t['k']
    if k == 'ptr':
        return hx(v) if t['e']['k'] == 'char' else desc(t['e'], v)
    if k in ('opt', 'nptr'):
        return '0' if v is None else '1 ' + desc(t['e'], v[0])
    if k in ('vec', 'set'):
        return ' '.join([str(len(v))] + [desc(t['e'], x) for x in v])
    if k in ('map', 'mmap'):
        return ' '.join([str(len(v))] + [hx(q) + ' ' + desc(t['e'], x) for q, x in v])
    if k == 'obj':
        return ' '.join(desc(x, y) for (_, x), y in zip(t['f'], v))
    return hx(v)


def batch(ops, n=25):
    return [' ; '.join(ops[i:i + n]) for i in range(0, len(ops), n)]


def build(c, pairs=0):
    c.config_header()
    flags = []
    if pairs:
        with open(c.path('pairs.h'), 'w') as f:
            f.write(pairs_header(pairs))
        flags = ['-I' + c.scratch, '-DPAIRS=' + ' '.join('PAIR_PART(%d)' % (6 + k) for k in range(pairs))]
    with ThreadPoolExecutor(9) as ex:
        o = list(ex.map(lambda k: c.compile('json%d.o' % k, ['json.cpp'], flags=['-DPART=%d' % k, '-c'] + flags, opt='-O0'),
                        range(6 + pairs)))
    return c.compile('json', o)


def run(c, exe, ops, name, what):
    got = run_harness(c, exe, batch(ops), jobs=8, what=what)
    for t in got:
        for e in t:
            if e['op'] in 'pu':
                e['ty'] = SPEC[e.pop('t')]
            else:
                e['types'] = ROOTS
    parts = [got[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(trace_check, c, 'JsonTrace', p, name='%s%d' % (name, i), workers=1)
                  for i, p in enumerate(parts) if p]:
            f.result()


def roundtrip(c):
    exe = build(c, PAIR_PARTS)
    rng = random.Random(c.seed)
    g = Gen(rng)
    ops = []
    # all strings and keys of up to 3 (4) characters over the characters with a meaning
    alpha, strs = b'"\\/n', [b'']
    for _ in range(5 if c.thorough else 4):
        strs = strs + [s + bytes([x]) for s in strs for x in alpha if len(s) == max(map(len, strs))]
    strs += [b'\n', b'\t', b'\v', b'\f', b'\r', b'\0', b'\xff', b'a\n', b'\na', b'null', b'true']
    for s in strs:
        ops.append('u str %s' % hx(s))
        ops.append('u map_str_int 1 %s %s' % (hx(s), hx(b'1')))
        ops.append('u vec_str 2 %s %s' % (hx(s), hx(s)))
        ops.append('u opt_str 1 %s' % hx(s))
    for b in range(256):
        ops.append('u char %s' % hx(bytes([b])))
        ops.append('u str %s' % hx(bytes([b, b])))
    for k in INTS:
        for v in {LIM[k][0], LIM[k][0] + 1, -1, 0, 1, 9, 10, LIM[k][1] - 1, LIM[k][1]}:
            if LIM[k][0] <= v <= LIM[k][1]:
                ops.append('u %s %s' % (k, hx(str(v).encode())))
    for n in NAMES + NULLS:
        if n == 'ptr Sub':
            continue   # reads braces as an array
        t = ty(n)
        for _ in range(1200 if c.thorough else 40):
            ops.append('u %s %s' % (n.replace(' ', '_'), desc(t, g.val(t))))
    for n in PAIRS:
        t = ty(n)
        for _ in range(20 if c.thorough else 2):
            v = g.val(t)
            ops.append('u %s %s' % (n, desc(t, v)))
            ops.append('p %s %s' % (n, hx(g.sp() + g.braces(g.members(t, v)) + g.sp())))
    rng.shuffle(ops)
    run(c, exe, ops, 'rt', 'writing and reading back values')
    c.cov['bounds'] = {'strings': 'all of up to %d characters over %r' % (5 if c.thorough else 4, alpha.decode())}
    c.sample({'ops': ops[:3]})


# tokens by type for generated texts; q: with quotes
def q(x):
    return '"%s"' % x


GENS = [('int', 3, ['1', '-2147483648', '2147483648', '-', q('7'), q('1x'), 'true', '{', ']', ',']),
        ('bool', 3, ['true', 'false', q('true'), 'null', '1', '[', ',']),
        ('opt int', 3, ['null', '1', q('null'), q('2'), 'true', '[', ',']),
        ('vec int', 8, ['[', ']', '{', '}', ',', ':', '1', q('0'), q('1'), q('2')]),
        ('vec str', 6, ['[', ']', '{', '}', ',', ':', q('0'), q('1'), 'true', q('a')]),
        ('set int', 8, ['[', ']', '{', ',', '1', '2', q('1')]),
        ('vec vec int', 8, ['[', ']', '{', '}', ',', ':', '1', q('0')]),
        ('map str int', 10, ['{', '}', '[', ']', ',', ':', '1', q('a'), q('b')]),
        ('map int str', 9, ['{', '}', '[', ',', ':', '1', q('1'), q('01'), q('a')]),
        ('mmap str int', 9, ['{', '}', ',', ':', '1', '2', q('a'), q('b')]),
        ('map str vec int', 8, ['{', '}', '[', ']', ',', ':', '1', q('0')]),
        ('vec opt int', 7, ['[', ']', ',', 'null', '1', q('null'), '{']),
        ('opt vec int', 6, ['[', ']', ',', 'null', '1', q('null'), '{', '}']),
        ('Sub', 7, ['{', '}', '[', ']', ',', ':', q('X'), q('Y'), q('Z'), '1']),
        ('vec Sub', 7, ['{', '}', '[', ']', ',', ':', q('Y'), q('0'), '1']),
        ('ptr int', 6, ['[', ']', '{', '}', ',', ':', '1', q('0'), q('1')]),
        ('ptr char', 6, ['[', ']', '{', '}', ',', ':', q('a'), q('0'), q('ab')])]
CHARS = [('str', 5, ['"', '\\', '/', 'n', ' ']), ('str', 5, ['1', '.', '-']), ('int', 4, ['-', '+', '1', '0', ' ', '.', '"']),
         ('dec', 5, ['-', '1', '0', '.', ' ']), ('opt bool', 5, ['t', 'r', 'u', 'e', 'n'])]


def accepted(c):
    exe = build(c)
    rng = random.Random(c.seed)
    g = Gen(rng)
    ops = []

    def gen(n, maxlen, alpha, chars):
        f = c.path('gen_%s_%d_%d.json' % (n.replace(' ', '_'), chars, len(alpha)))
        with open(f, 'w') as fo:
            json.dump({'ty': SPEC[n], 'alpha': [codes(a) for a in alpha]}, fo)
        res = c.tlc('JsonGen', cfg(consts={'MaxLen': maxlen, 'Chars': 'TRUE' if chars else 'FALSE'}, inv=('SpaceFree',),
                                   action_constraint=('Emit',), deadlock=False), env={'GEN_FILE': f}, workers=1)
        texts = [bytes(x) for x in printed(res)]
        r = ['p %s %s' % (n.replace(' ', '_'), hx(x)) for x in texts]
        # texts which go on after the first token that is wrong
        rnd = random.Random(c.seed * 1000 + len(r))
        close = [a for a in alpha if a in '}]'] or alpha
        for _ in range(0 if chars else min(8 * len(r), 1500 if c.thorough else 150)):
            x = rnd.choice(texts)
            for _ in range(rnd.choice([1, 1, 2, 2, 3, 4])):
                x += b' ' + rnd.choice(alpha + close + close).encode()
            r.append('p %s %s' % (n.replace(' ', '_'), hx(x)))
        log('%s %d: %d texts, %.0f s' % (n, maxlen, len(r), time.time() - c.t0))
        return r
    # numbers around the limits of every width, with and without a sign
    edges = {(1 << w) + d for w in (7, 8, 15, 16, 31, 32, 63, 64) for d in (-2, -1, 0, 1, 2)}
    for k in INTS:
        for v in sorted(edges):
            for t in ('%d', '-%d', '"%d"', '"-%d"', '+%d', '0%d', '-0%d'):
                ops.append('p %s %s' % (k, hx((t % v).encode())))
    # a byte before, after or within a number
    for k in INTS:
        for b in range(256):
            for t in ((b'"1%c"', b'"%c1"', b'"1%c2"', b'1%c', b'%c1', b'"-%c1"') if c.thorough else
                      (rng.choice([b'"1%c"', b'"1%c0"', b'"0%c1"']), rng.choice([b'"%c1"', b'1%c', b'%c1', b'"-%c1"', b'"%c-1"']))):
                x = t % b
                if b != 34 and not (b == 92 and t[0] == 34):
                    ops.append('p %s %s' % (k, hx(x)))
        for x in (b'"1\0"', b'"1\0x"', b'"\0"', b'"\x001"', b'"-1\0"', b'" -1"', b'" 1"', b'"\\n-1"', b'"\\t-18446744073709551615"',
                  b'" -18446744073709551615"', b'"\v-4294967295"', b'"0x10"', b'"010"', b'"1e2"', b'"--1"', b'"+-1"', b'"- 1"', b'"1 "'):
            ops.append('p %s %s' % (k, hx(x)))
    # numbers too large for their type, and large ones that are exact
    for k, most in (('flt', 127), ('dec', 1023)):
        for e in (24, 30, 53, 63, 64, 100, 126, most - 2, most - 1):
            for t in (b'%d', b'-%d', b'%d.', b'%d.000', b'00%d', b'+%d'):
                if e < most:
                    ops.append('p %s %s' % (k, hx(t % 2**e)))
        for t in (b'%d', b'-%d', b'%d.5', b'"%d"'):
            for n in (41 if k == 'flt' else 311, 45 if k == 'flt' else 400):
                ops.append('p %s %s' % (k, hx(t % 10**n)))
                ops.append('p vec_%s %s' % (k, hx(b'[1.5,' + t % 10**n + b']')))
    more = 2 if c.thorough else 0
    with ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(gen, n, m + (more if m > 4 else 0), a, False) for n, m, a in GENS]
        jobs += [ex.submit(gen, n, m + more // 2, a, True) for n, m, a in CHARS]
        for j in jobs:
            ops += j.result()
    c.cov['bounds'] = {'generated texts': len(ops)}
    log('%d texts after %.0f s' % (len(ops), time.time() - c.t0))
    # the quoted variants of the generated character strings
    for n, m, alpha in CHARS[:1]:
        ops += ['p str %s' % hx(b'"' + bytes.fromhex(o.split()[2]) + b'"') for o in ops if o.startswith('p str ')]
    for n in NAMES:
        t = ty(n)
        dec = 'dec' in n or 'flt' in n
        for _ in range(1500 if c.thorough else 50):
            s = g.sp() + g.render(t, g.val(t)) + g.sp()
            if not dec or representable(s, 'flt' in n):
                ops.append('p %s %s' % (n.replace(' ', '_'), hx(s)))
            for _ in range(2):
                m = g.mutate(s, dec)
                if not dec or representable(m, 'flt' in n):
                    ops.append('p %s %s' % (n.replace(' ', '_'), hx(m)))
    ops = [o for o in ops if clear(o)]
    rng.shuffle(ops)
    run(c, exe, ops, 'ac', 'reading generated and mutated texts')
    c.sample({'ops': ops[:3]})


def representable(m, flt):
    """Numbers whose first six decimals are exact in the floating-point type."""
    for x in re.findall(rb'[-+.0-9]+', m):
        n = re.fullmatch(rb'[-+]?(\d*)\.?(\d*)', x)
        if not n or not n.group(1) + n.group(2):
            continue
        w, f = n.groups()
        if len(f) > 6 or len(w) > 9:
            return False
        v = float(x)
        if flt:
            v = struct.unpack('f', struct.pack('f', v))[0]
        if abs(int(round(abs(v) * 10**6)) - int((w + f.ljust(6, b'0')))) or '%.6f' % abs(v) != '%d.%s' % (int(w or b'0'), f.ljust(6, b'0').decode()):
            return False
    return not re.search(rb'"[^"]*[^-+.0-9" ]', m)


def clear(op):
    """Texts that repeat a member which holds a container are left open."""
    w = op.split()
    if w[1].replace('_', ' ') not in ('Dog', 'Human') and w[0] == 'p':
        return True
    t = bytes.fromhex(w[2]) if w[2] != '-' else b''
    return t.count(b'"Map"') < 2 and t.count(b'"Inner"') < 2


def roots(c):
    exe = build(c)
    rng = random.Random(c.seed)
    g = Gen(rng)
    ops = []
    for _ in range(20000 if c.thorough else 900):
        n = rng.choice(['Human', 'Dog', 'Nil'])
        t = OBJS[n]
        key = rng.choice(['name', 'name', 'kind', 'Name_'])
        v = g.val(t)
        ops.append('w %s%s %s %s' % (rng.choice(['', '+']), key, n, desc(t, v)))
        it = g.members(t, v)
        name = rng.choice([n] * 6 + ['Cat', 'Huma', 'Humans', '', 'human'])
        it.insert(rng.randint(0, len(it)), (b'"%s"' % key.encode(), b'"%s"' % name.encode()))
        if rng.random() < .1:
            it = [i for i in it if i[0] != b'"%s"' % key.encode()]
        s = g.sp() + g.braces(it) + g.sp()
        ops.append('r %s %s' % (key, hx(s)))
        if rng.random() < .6:
            ops.append('r %s %s' % (key, hx(g.mutate(s, False))))
    # members and names that are nearly the ones looked for
    def near(k):
        return [k[:-1], k + b's', k + k, k + b'\\"', k + b'\\n', k + b'\\\\', b'x' + k, b'\\"' + k, b' ' + k, k + b' ', k.swapcase(),
                k[1:], k[::-1], b'\\' + k, b'']
    for key in (b'name', b'kind', b'n', b'Name_'):
        for d in near(key):
            if d == key:
                continue
            for v in (b'"Dog"', b'"Human"', b'"Cat"', b'1', b'{"%s":"Dog"}' % key, b'["%s",{"%s":"Dog"}]' % (key, key), b'"%s"' % key):
                for m in ([(d, v), (key, b'"Human"')], [(key, b'"Human"'), (d, v)], [(d, v)]):
                    ops.append('r %s %s' % (key.decode(), hx(g.braces([(b'"%s"' % a, b) for a, b in m]))))
    for n in (b'Human', b'Dog', b'Nil'):
        for d in near(n):
            ops.append('r name %s' % hx(b'{"name":"%s"}' % d))
            ops.append('r name %s' % hx(b'{"Tags":["a"],"name":"%s","zz":"%s"}' % (d, n)))
    # all prefixes and all single-byte changes of some documents
    for s in (b'{"x":[1,{"name":"Dog"}],"name":"Human","Name":"J","y":{},"Tags":["a"]}', b'{"name":"Nil"}',
              b'{"Map":{"name":2},"name":"Dog","List":{"1":2,"0":1}}'):
        for i in range(len(s) + 1):
            ops.append('r name %s' % hx(s[:i]))
            for x in b'{}[],:"0\\':
                if i < len(s):
                    ops.append('r name %s' % hx(s[:i] + bytes([x]) + s[i + 1:]))
    ops = [o for o in ops if o[0] == 'w' or clear('r x ' + o.split()[2])]
    ops = [o for o in ops if o[0] == 'w' or clear('r Dog ' + o.split()[2])]
    rng.shuffle(ops)
    run(c, exe, ops, 'ro', 'named objects')
    c.sample({'ops': ops[:3]})
