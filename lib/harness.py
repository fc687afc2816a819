"""Building and running the monitored programs; verdicts, replays and evidence."""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
CORES = min(8, os.cpu_count() or 8)
HOST = 'x86_64-unknown-linux-gnu'


class Broken(Exception):
    """The check itself could not reach a verdict."""


class Violation:
    def __init__(self, what, subject='', input='', expected='', got='', decl='', program=None, repro=''):
        self.__dict__.update(what=what, subject=subject, input=input, expected=expected, got=got, decl=decl, program=program, repro=repro)


def sh(cmd, cwd=None, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout', '', 'timed out after %s s: %s' % (timeout, ' '.join(cmd))


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, '.work', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []
        self.known = []
        self.counters = {}
        self.samples = []
        self.evaluations = 0
        self.distinct = 0
        self.programs = 0
        self.extra = {}
        self.notes = []
        self.rule = ''
        self.assumptions = []

    # ------------------------------------------------------------ workspaces
    def workspace(self, name, programs, features=(), default_features=True, full=True, deps='', harness=True, lib=None, opt=2):
        """A cargo workspace with one binary per program."""
        d = os.path.join(self.dir, name)
        os.makedirs(os.path.join(d, 'gen/src/bin'))
        os.makedirs(os.path.join(d, 'rt'))
        w = lambda p, t: open(os.path.join(d, p), 'w').write(t)
        dep = 'packed_struct = { path = "%s/packed_struct", default-features = %s, features = [%s] }\n' % (
            REPO, 'true' if default_features else 'false', ', '.join('"%s"' % f for f in features))
        w('Cargo.toml', '[workspace]\nmembers = ["gen", "rt"]\nresolver = "2"\n'
          '[profile.dev]\ndebug = 0\nincremental = false\n[profile.dev.package.gen]\ncodegen-units = 1\n[profile.dev.package.rt]\nopt-level = 2\n'
          '[profile.release]\ndebug = 0\nincremental = false\nopt-level = %d\ncodegen-units = 4\n[profile.release.package.rt]\nopt-level = 2\n' % opt)
        w('rt/Cargo.toml', '[package]\nname = "rt"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "%s/rt/src/lib.rs"\ndoctest = false\n[features]\ndefault = [%s]\nfull = []\nerrors = []\n[dependencies]\n%s' % (
            VERIF, ('"full", "errors"' if default_features or 'std' in features else '"full"') if full else '', dep))
        w('gen/Cargo.toml', '[package]\nname = "gen"\nversion = "0.1.0"\nedition = "2021"\nautobenches = false\n[dependencies]\nrt = { path = "../rt" }\n%s%s' % (dep, deps))
        if lib is not None or not programs:
            w('gen/src/lib.rs', lib or '')
        for n, src in programs.items():
            w('gen/src/bin/%s.rs' % n, src)
        lock = os.path.join(VERIF, 'lib/Cargo.lock.serde' if deps else 'lib/Cargo.lock.base')
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
        return d

    def build(self, ws, release=False, toolchain=None, env=None, args=(), cmd='build', timeout=800, jobs=None):
        """Returns the list of compiler errors located in generated programs. Errors anywhere
        else are returned separately."""
        c = ['cargo'] + (['+' + toolchain] if toolchain else []) + [cmd, '--offline', '--message-format=json', '-q']
        if release:
            c.append('--release')
        if jobs:
            c += ['-j', str(jobs)]
        c += list(args)
        if '--keep-going' not in c and cmd == 'build':
            c.append('--keep-going')
        e = {'CARGO_TERM_COLOR': 'never', 'RUSTFLAGS': '-Awarnings', 'CARGO_TARGET_DIR': os.path.join(ws, 'target')}
        e.update(env or {})
        rc, out, err = sh(c, cwd=ws, env=e, timeout=timeout)
        mine, other = [], []
        for line in out.splitlines():
            if not line.startswith('{'):
                continue
            m = json.loads(line)
            if m.get('reason') != 'compiler-message' or m['message']['level'] not in ('error', 'error: internal compiler error'):
                continue
            if m['message']['message'].startswith('aborting due to'):
                continue
            t = m['target']
            msg = m['message']
            if m['manifest_path'].startswith(ws) and (t['kind'] == ['bin'] or t['name'] == 'gen'):
                mine.append((t['name'], msg))
            else:
                other.append((t['name'], msg))
        if rc == 0:
            return [], []
        if rc == 'timeout':
            raise Broken('build timed out in ' + ws)
        if not mine and not other:
            raise Broken('cargo failed (%s): %s' % (rc, err[-3000:]))
        return mine, other

    def compile_violations(self, ws, mine, what='declaration.rejected'):
        """A valid declaration that does not compile."""
        seen = set()
        for prog, msg in mine:
            src = os.path.join(ws, 'gen/src/lib.rs' if prog == 'gen' else 'gen/src/bin/%s.rs' % prog)
            prog = os.path.basename(src)[:-3]
            if msg['spans'] and not any(s['file_name'].endswith(src[len(ws) + 1:]) for s in msg['spans']):
                raise Broken('monitor code does not build: ' + (msg.get('rendered') or msg['message'])[:3000])
            text = open(src).read().split('\n')
            line = min([s['line_start'] for s in msg['spans'] if s['file_name'].endswith(prog + '.rs') and s['is_primary']] or [s['line_start'] for s in msg['spans'] if s['file_name'].endswith(prog + '.rs')] or [1])
            a = line - 1
            while a > 0 and not text[a].startswith('#[derive'):
                a -= 1
            b = a
            while b < len(text) - 1 and text[b].strip():
                b += 1
            decl = '\n'.join(text[a:min(b, a + 60)])
            if decl in seen or len(seen) > 8:
                continue
            seen.add(decl)
            self.violations.append(Violation(what, subject='%s.rs:%d' % (prog, line), decl=decl, expected='compiles', got=(msg.get('rendered') or msg['message'])[:3000], program=src))

    def fail_lib(self, other, config):
        n, m = other[0]
        raise Broken('%s does not build (%s): %s' % (n, config, (m.get('rendered') or m['message'])[:3000]))

    # ------------------------------------------------------------ running
    def exe(self, ws, name, release=False, target=None):
        return os.path.join(ws, 'target', *([target] if target else []), 'release' if release else 'debug', name)

    def run_program(self, cmd, name, n, prop=None, env=None, timeout=600, tag='', stdout=False, cwd=None, sanitizer=False, tier=None):
        out = '-' if stdout else os.path.join(self.dir, 'out-%s-%s.json' % (tag or 'x', name))
        rc, o, err = sh(list(cmd) + [prop or self.prop, str(SEED), tier or TIER, str(n), out], env=env, timeout=timeout, cwd=cwd)
        return dict(name=name, rc=rc, out=o, err=err, file=out, tag=tag, sanitizer=sanitizer)

    def take(self, res, src=None):
        """Merges the results of one program into the verdict."""
        name = (res['tag'] + ':' if res['tag'] else '') + res['name']
        if res['rc'] == 0:
            if res['file'] == '-':
                line = [l for l in res['out'].splitlines() if l.startswith('RESULT ')]
                if not line:
                    raise Broken('%s printed no result: %s' % (name, res['err'][-2000:]))
                r = json.loads(line[-1][7:])
            else:
                r = json.load(open(res['file']))
            for k, v in r['counters'].items():
                if k == 'evaluations':
                    self.evaluations += v
                else:
                    self.counters[k] = self.counters.get(k, 0) + v
            self.distinct += r['distinct']
            self.samples += r['samples'][:2]
            self.programs += 1
            for v in r['violations']:
                self.violations.append(Violation(what=v['what'], subject=v['subject'], input=v['input'], expected=v['expected'], got=v['got'], decl=v['decl'], program=src, repro=name))
            return r
        if res['rc'] == 3 or 'HARNESS-PANIC' in res['err']:
            raise Broken('%s: harness panic: %s' % (name, res['err'][-2000:]))
        if res['rc'] == 124 and 'HANG: ' in res['err']:
            self.violations.append(Violation('hang', subject=name, expected='every operation returns', got=res['err'][-500:], program=src, repro=name))
            return None
        if res['rc'] in ('timeout', -signal.SIGKILL):
            raise Broken('%s: %s' % (name, res['err'][-500:] or 'killed'))
        text = res['err'][-6000:]
        if res['sanitizer']:
            m = re.search(r'(==\d+==ERROR: .*|error: Undefined Behavior: .*|WARNING: ThreadSanitizer.*|.*Invalid (read|write).*)', res['err'])
            if m:
                i = res['err'].index(m.group(0))
                text = res['err'][i:i + 4000]
        if isinstance(res['rc'], int) and (res['rc'] < 0 or res['sanitizer'] or res['rc'] == 134):
            self.violations.append(Violation('crash', subject=name, expected='no crash, no sanitizer report', got='exit %s: %s' % (res['rc'], text), program=src, repro=name))
            return None
        raise Broken('%s exited with %s: %s' % (name, res['rc'], text))

    def run_all(self, jobs):
        """jobs: list of (callable, src)"""
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            fs = [(ex.submit(f), src) for f, src in jobs]
            return [self.take(f.result(), src) for f, src in fs]

    def canary(self, cmd, pattern, what, env=None, cwd=None, timeout=300):
        """A deliberately broken program that the instrument has to report."""
        rc, out, err = sh(cmd, env=env, cwd=cwd, timeout=timeout)
        if rc == 0 or not re.search(pattern, err):
            raise Broken('%s does not report a planted fault: exit %s %s' % (what, rc, err[-1500:]))
        self.counters['planted_faults_reported'] = self.counters.get('planted_faults_reported', 0) + 1

    def miri(self, ws, target=None, env=None):
        """Environment and command prefix for interpreted runs; prepares the interpreter's standard library."""
        e = {'CARGO_TARGET_DIR': os.path.join(ws, 'target-miri'), 'MIRIFLAGS': '-Zmiri-disable-stacked-borrows -Zmir-opt-level=3', 'RUSTFLAGS': '-Awarnings', 'CARGO_TERM_COLOR': 'never'}
        e.update(env or {})
        if target:
            e['MIRI_SYSROOT'] = os.path.join(ws, 'sysroot-' + target)
            os.makedirs(e['MIRI_SYSROOT'])
            rc, out, err = sh(['cargo', '+nightly', 'miri', 'setup', '--target', target, '--offline'][:-1], cwd=ws, env=e, timeout=600)
            if rc != 0:
                raise Broken('no interpreter for %s: %s' % (target, err[-1500:]))
        return e

    def miri_cmd(self, name, target=None):
        return ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--bin', name] + (['--target', target] if target else []) + ['--']

    def standard(self, programs, n, name='std', timeout=600, probes=None, may_fail=(), **kw):
        """Build and run plain programs in the default configuration. Probes are further programs,
        built along and left to the caller."""
        ws = self.workspace(name, dict(programs, **(probes or {})), **kw)
        t = time.time()
        mine, other = self.build(ws)
        self.extra['build_s'] = round(time.time() - t, 1)
        if other:
            self.fail_lib(other, 'default features')
        self.compile_violations(ws, [m for m in mine if m[0] not in may_fail])
        bad = {p for p, _ in mine}
        t = time.time()
        self.run_all([((lambda p=p: self.run_program([self.exe(ws, p)], p, n, timeout=timeout)), os.path.join(ws, 'gen/src/bin/%s.rs' % p)) for p in programs if p not in bad])
        self.extra['run_s'] = round(time.time() - t, 1)
        return ws, bad

    def probe(self, ws, name, bad, known, args=(), timeout=120):
        """A program that prints one line `PROBE good` / `PROBE known <signature>` / anything else.
        known: the text of the known finding or None."""
        if name in bad:
            return None
        rc, out, err = sh([self.exe(ws, name)] + list(args), timeout=timeout)
        line = [l for l in out.splitlines() if l.startswith('PROBE ')]
        self.evaluations += 1
        self.distinct += 1
        self.counters['probes'] = self.counters.get('probes', 0) + 1
        if line and line[-1] == 'PROBE good':
            return True
        if line and line[-1] == 'PROBE known' and known:
            self.finding(known)
            return True
        if rc == 'timeout':
            raise Broken('probe %s timed out' % name)
        self.violations.append(Violation('probe.' + name, subject=name, expected='PROBE good', got='exit %s: %s %s' % (rc, line[-1] if line else out[-500:], err[-1500:]), program=os.path.join(ws, 'gen/src/bin/%s.rs' % name)))
        return False

    def vendored_std(self, d, lock):
        """Makes the standard library buildable for targets whose own dependencies are only in the vendored sources
        that come with the compiler. d: workspace."""
        v = os.path.join(d, 'vendor')
        rc, out, err = sh(['cargo', 'vendor', '--offline', '--quiet', v], cwd=d)
        if rc != 0:
            raise Broken('cargo vendor: ' + err[-1500:])
        rc, out, err = sh(['rustc', '+nightly', '--print', 'sysroot'])
        for x in os.scandir(os.path.join(out.strip(), 'lib/rustlib/src/rust/library/vendor')):
            t = os.path.join(v, 'std-' + x.name)
            if x.is_dir():
                os.symlink(x.path, t)
        os.makedirs(os.path.join(d, '.cargo'))
        open(os.path.join(d, '.cargo/config.toml'), 'w').write('[source.crates-io]\nreplace-with = "all"\n[source.all]\ndirectory = "%s"\n' % v)

    # ------------------------------------------------------------ the end
    def finding(self, text):
        self.known.append(text)

    def finish(self, exhaustive=False):
        ev = os.path.join(VERIF, 'evidence')
        rp = os.path.join(ev, 'replays')
        os.makedirs(rp, exist_ok=True)
        for f in os.listdir(rp):
            if f.startswith(self.prop + '-') or f.startswith(self.prop + '.'):
                os.remove(os.path.join(rp, f))
        replay = None
        if self.violations:
            replay = os.path.join(rp, self.prop + '.json')
            out = []
            for i, v in enumerate(self.violations[:40]):
                d = dict(v.__dict__)
                if v.program and os.path.exists(v.program):
                    dst = os.path.join(rp, '%s-%s' % (self.prop, os.path.basename(v.program)))
                    if not os.path.exists(dst) and len(os.listdir(rp)) < 60:
                        shutil.copy(v.program, dst)
                    d['program'] = dst
                out.append(d)
            json.dump(dict(property=self.prop, seed=SEED, tier=TIER, command='VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s' % (SEED, TIER, self.prop), violations=out), open(replay, 'w'), indent=1)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=self.distinct, rule=self.rule, samples=self.samples[:6] or ['-'], programs_run=self.programs,
                   observed=dict(sorted(self.counters.items())))
        cov.update(self.extra)
        if exhaustive:
            cov['exhaustive'] = True
        if self.known:
            cov['known_findings_reproduced'] = self.known
        json.dump(dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='exploration', coverage=cov,
                       assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations)),
                  open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        print('%s: %d observations (%d distinct), %d programs, %d violations, %.1f s' % (self.prop, self.evaluations, self.distinct, self.programs, len(self.violations), time.time() - self.t0))
        for v in self.violations[:5]:
            print('  %s  %s\n    input    %s\n    expected %s\n    got      %s\n%s' % (v.what, v.subject, v.input[:600], v.expected[:600], v.got[:900], ('    ' + v.decl[:900].replace('\n', '\n    ')) if v.decl else ''))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        if self.evaluations == 0:
            print('no observations were made')
            return 2
        return 0
