"""Shared machinery of the checks: scratch folders, compiling harnesses against
/repo's working tree, running TLC, reporting verdicts and evidence.

Outcomes of a check:
  exit 0  the property held on everything explored
  exit 1  `VIOLATION property=<id> replay=<path>` was printed
  exit 2  an error of the check itself (TLC broke, disk full, ...)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
HARNESS = os.path.join(VERIF, 'harness')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class Violation(Exception):
    """The property is broken; `replay` is the text that reproduces it."""
    def __init__(self, msg, replay=''):
        super().__init__(msg)
        self.replay = replay


class CheckError(Exception):
    """The check could not decide."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vchk_%s_' % pid)
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.known = []
        self.thorough = tier == 'thorough'

    # -- files ---------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.scratch, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def sample(self, s, cap=6):
        if len(self.cov['samples']) < cap:
            self.cov['samples'].append(s)

    # -- building ------------------------------------------------------------
    def config_header(self, legacy=False):
        """bcl-config.h as cmake would generate it, in the scratch folder."""
        d = self.path('gen/bcl')
        if not os.path.isdir(d):
            os.makedirs(d)
            src = open(os.path.join(REPO, 'include/bcl/bcl-config.h.in')).read()
            if not legacy:
                src = re.sub(r'#cmakedefine\s+BCL_LEGACY', '', src)
            src = re.sub(r'#cmakedefine\s+(\w+)', r'#define \1', src)
            src = re.sub(r'\$\{[^}]*\}|@[A-Za-z_0-9]+@', '0', src)
            with open(os.path.join(d, 'bcl-config.h'), 'w') as f:
                f.write(src)
        return self.path('gen')

    def compile(self, name, sources, flags=(), san=True, libs=(), opt='-O1',
                must=True, cxx='g++'):
        """Builds a harness against /repo's tree. A harness that no longer
        compiles means that the public interface lost something it offers."""
        out = self.path(name)
        srcs = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in sources]
        cmd = [cxx, '-std=gnu++17', opt, '-g', '-w', '-pthread',
               '-I' + os.path.join(REPO, 'include'), '-I' + self.config_header(),
               '-I' + HARNESS,
               '-include', 'cstdint', '-include', 'cstdio', '-include', 'cstdlib',
               '-include', 'type_traits', '-include', 'utility', '-include', 'iterator',
               '-include', 'array']
        if san:
            cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                    '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
        cmd += list(flags) + srcs + ['-o', out] + list(libs)
        for attempt in (1, 2):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors='replace')
            if r.returncode == 0:
                return out
            # killed compiler or a full disk is an error of the check
            if r.returncode < 0 or 'No space left' in r.stdout or 'Killed' in r.stdout \
                    or 'internal compiler error' in r.stdout:
                if attempt == 2:
                    raise CheckError('compiler failed: ' + r.stdout[-2000:])
                continue
        if not must:
            return None
        raise Violation('the harness %s (which uses only the public interface) does '
                        'not compile against the current tree' % name,
                        ' '.join(cmd) + '\n' + r.stdout[-8000:])

    def run(self, argv, timeout=120, input=None, env=None, cwd=None):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
        if env:
            e.update(env)
        try:
            r = subprocess.run(argv, input=input, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, errors='replace',
                               timeout=timeout, env=e, cwd=cwd or self.scratch)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as ex:
            def dec(b):
                return b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
            return 'timeout', dec(ex.stdout), dec(ex.stderr)

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg_text, env=None, workers=None, timeout=600, extra=(),
            count=True, heap='6g', expect_ok=True):
        """Runs TLC on specs/<module>.tla. Returns a dict with the outcome."""
        d = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg_text)
        cmd = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', TLA_CP, 'tlc2.TLC',
               '-workers', str(workers or NCPU), '-metadir', os.path.join(d, 'states'),
               '-noGenerateSpecTE', '-config', 'run.cfg', *extra, module + '.tla']
        e = dict(os.environ)
        if env:
            e.update(env)
        for attempt in (1, 2):
            outp = os.path.join(d, 'out.txt')
            try:
                with open(outp, 'w') as fo:
                    r = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT,
                                       timeout=timeout, env=e, cwd=d)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            out = open(outp, errors='replace').read()
            res = {'rc': rc, 'out': out, 'dir': d}
            m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
            if m:
                res['generated'], res['distinct'] = int(m[-1][0]), int(m[-1][1])
            m = re.search(r'Progress: (\d+) states checked', out)
            if 'generated' not in res:
                m = re.findall(r'The number of states generated: (\d+)', out)
                if m:
                    res['generated'] = res['distinct'] = int(m[-1])
            # 0 ok; 10-13 safety/deadlock/liveness/assert violations
            if rc == 0 or rc in (10, 11, 12, 13):
                break
            log('TLC attempt %d on %s ended with %s' % (attempt, module, rc))
        else:
            raise CheckError('TLC failed on %s (%s): %s' % (module, rc, out[-1800:]))
        if count:
            self.cov['states'] += res.get('distinct', 0)
            self.cov['transitions'] += res.get('generated', 0)
        if expect_ok and res['rc'] != 0:
            raise CheckError('the specification %s itself violates its properties: %s'
                             % (module, res['out'][-4000:]))
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
        return res

    # -- ending --------------------------------------------------------------
    def evidence(self, violations):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)

    def replay_path(self):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, '%s.txt' % self.pid)

    def cleanup(self):
        if os.environ.get('VERIF_KEEP'):
            log('scratch kept: ' + self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)


def main_for(pid, fn, tier, seed):
    c = Check(pid, tier, seed)
    try:
        try:
            fn(c)
        except Violation as v:
            p = c.replay_path()
            with open(p, 'w') as f:
                f.write('property %s\n%s\n\n%s\n' % (pid, v, v.replay))
            log('-- ' + str(v)[:3000])
            c.cov['samples'] = c.cov['samples'] or ['violation: ' + str(v)[:500]]
            c.evidence(1)
            print('VIOLATION property=%s replay=%s' % (pid, p), flush=True)
            return 1
        for k in c.known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k), flush=True)
        c.evidence(0)
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            pid, c.cov['states'], c.cov['transitions'],
            c.cov['traces_validated_against_impl'], time.time() - c.t0), flush=True)
        return 0
    except CheckError as e:
        log('ERROR of the check %s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()
