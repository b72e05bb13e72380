"""Driver library: builds harness crates against /repo, runs the symbolic executor over the
compiled IR, replays counterexamples natively, writes evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
RSYM = os.path.join(ROOT, 'engine', 'target', 'release', 'rsym')
CORES = min(8, os.cpu_count() or 8)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd=None, timeout=600, env=None, running=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    if running is not None:
        running.append(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        # with its solvers
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise
    finally:
        if running is not None:
            running.remove(p)
    return p.returncode, out.decode('utf-8', 'replace')


def build_engine():
    src = os.path.join(ROOT, 'engine')
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(src, 'src'))):
        h.update(open(os.path.join(src, 'src', f), 'rb').read())
    stamp = os.path.join(src, 'target', 'stamp')
    if os.path.exists(RSYM) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    rc, out = sh(['cargo', 'build', '--release', '--offline'], cwd=src, timeout=900)
    if rc:
        raise CheckError('engine build failed:\n' + out[-3000:])
    open(stamp, 'w').write(h.hexdigest())


def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'tests', 'benches', 'cldr_data'))
        for f in sorted(files):
            if f.endswith('.rs') or f == 'Cargo.toml':
                p = os.path.join(base, f)
                h.update(p.encode() + b'\0')
                h.update(open(p, 'rb').read())
    return h


class Crate:
    """a harness crate instantiated under .build, keyed by everything that goes into it"""

    def __init__(self, name, gen=None):
        self.name = name
        self.gen = gen or {}
        src = os.path.join(ROOT, 'harness', name)
        h = repo_hash()
        files = {}
        for base, dirs, fs in os.walk(src):
            dirs[:] = [d for d in dirs if d != 'target']
            for f in fs:
                p = os.path.join(base, f)
                files[os.path.relpath(p, src)] = open(p, 'rb').read()
        for f in ('sym.rs', 'rt.rs'):
            files['src/' + f] = open(os.path.join(ROOT, 'harness', 'common', f), 'rb').read()
        for f, s in self.gen.items():
            files[f] = s.encode()
        for f in sorted(files):
            h.update(f.encode() + b'\0' + files[f])
        self.key = name + '-' + h.hexdigest()[:16]
        self.dir = os.path.join(BUILD, self.key)
        self.prune()
        os.makedirs(self.dir, exist_ok=True)
        for f, b in files.items():
            p = os.path.join(self.dir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p, 'rb').read() != b:
                open(p, 'wb').write(b)
        self.lib = re.search(r'name = "(\w+)"', files['Cargo.toml'].decode()).group(1)
        self._bin = {}

    def prune(self):
        try:
            old = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(self.name + '-') and d != self.key]
        except FileNotFoundError:
            return
        old.sort(key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)

    def ir(self):
        ll = os.path.join(self.dir, 'module.ll')
        if os.path.exists(ll):
            return ll
        rc, out = sh(['cargo', 'rustc', '--release', '--offline', '--lib', '--', '--emit=llvm-ir'], cwd=self.dir, timeout=800)
        if rc:
            raise CheckError('build of the harness against /repo failed:\n' + out[-4000:])
        src = os.path.join(self.dir, 'target/release/deps', self.lib + '.ll')
        shutil.copy(src, ll + '.tmp')
        os.rename(ll + '.tmp', ll)
        return ll

    def replay_bin(self, profile):
        if profile not in self._bin:
            rc, out = sh(['cargo', 'build', '--offline', '--bin', 'replay', '--profile', profile], cwd=self.dir, timeout=800)
            if rc:
                raise CheckError('native build of the harness failed:\n' + out[-4000:])
            self._bin[profile] = os.path.join(self.dir, 'target', 'debug' if profile == 'dev' else profile, 'replay')
        return self._bin[profile]

    def replay(self, entry, arg, inputs, profile='dev', pad=False):
        """-> (exit code, output); 3 or 101 means that the real build fails in the same way"""
        b = self.replay_bin(profile)
        f = os.path.join(self.dir, 'in.%d.%d' % (os.getpid(), threading.get_ident()))
        open(f, 'w').write(' '.join(str(x) for x in inputs))
        try:
            rc, out = sh([b, entry, str(arg), f], timeout=60, env=dict(ENV, RSYM_PAD='1') if pad else None)
        except subprocess.TimeoutExpired:
            rc, out = 124, 'timeout'
        os.unlink(f)
        return rc, out


class Job:
    def __init__(self, crate, entries, stubs=(), opts=()):
        self.crate, self.entries, self.stubs, self.opts = crate, entries, list(stubs), list(opts)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.res = []          # (crate, result dict)
        self.bounds = []
        self.assumptions = []
        self.notes = {}
        self.viol = []
        self.known = []
        self.probed = 0
        self.compiled = 0
        self.trouble = []      # disagreements: the check cannot be believed
        self.undecided = []    # harness runs without a verdict
        self.decided = {}      # harness -> runs with a verdict
        self.deadline = self.t0 + (600 if tier == 'quick' else 6 * 3600)
        self.samples = []
        self.validated = 0
        self.extra = {}
        self.level = 'model_checking'
        self.need_cover = {}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        build_engine()

    # ------------------------------------------------------------------ running
    def run(self, crate, entries, stubs=(), opts=(), max_time=None, chunk=None, max_cex=1, stop_on_cex=True):
        """entries: list of (name, arg). Runs them over all cores; returns the result dicts."""
        ll = crate.ir()
        if max_time is None:
            max_time = 300 if self.tier == 'quick' else 6000
        n = len(entries)
        k = chunk or max(1, min(24, (n + CORES * 3 - 1) // (CORES * 3)))
        jobs = [entries[j:j + k] for j in range(0, n, k)]
        results = [None] * len(jobs)
        lock = threading.Lock()
        nxt = [0]
        errs = []
        found = []
        running = []
        reason = {}
        rlock = threading.Lock()

        def work():
            while True:
                with lock:
                    left = self.deadline - time.time()
                    if nxt[0] >= len(jobs) or errs or found or left < 5:
                        return
                    j = nxt[0]
                    nxt[0] += 1
                mt = max(3, int(min(max_time, left)))
                out = os.path.join(crate.dir, 'out.%d.%d.%d.json' % (os.getpid(), threading.get_ident(), j))
                cmd = [RSYM, ll, '--json', out, '--max-time', str(mt), '--max-cex', str(max_cex),
                       '--fallback', '40' if self.tier == 'quick' else '120']
                for e, a in jobs[j]:
                    cmd += ['--entry', '%s:%d' % (e, a)]
                for s in stubs:
                    cmd += ['--stub', s]
                cmd += [str(x) for x in opts]
                try:
                    rc, o = sh(cmd, timeout=min(mt * len(jobs[j]), left) + 20, running=running, env=dict(ENV, RSYM_TMP=crate.dir))
                    if found:
                        return      # stopped, see below
                    if rc or not os.path.exists(out):
                        reason[j] = 'the symbolic executor failed (%d): %s' % (rc, o[-300:])
                        continue
                    rs = json.load(open(out))
                    for r in rs:
                        for c in r['cex']:
                            with rlock:
                                c['native'] = {p: crate.replay(r['entry'], r['arg'], c['inputs'], p) for p in ('dev', 'user')}
                            c['real'] = any(v[0] in (3, 101, 124) for v in c['native'].values())
                    results[j] = rs
                    if stop_on_cex and any(c['real'] for r in rs for c in r['cex']):
                        # a counterexample answers the question: the other runs stop here
                        with lock:
                            found.append(j)
                            for p in list(running):
                                try:
                                    os.killpg(p.pid, signal.SIGKILL)
                                except ProcessLookupError:
                                    pass
                except subprocess.TimeoutExpired:
                    pass
                except Exception as e:  # noqa
                    with lock:
                        errs.append(e)
                finally:
                    if os.path.exists(out):
                        os.unlink(out)

        for f in os.listdir(crate.dir):
            if f.startswith('rsym-') and f.endswith('.smt2'):
                os.unlink(os.path.join(crate.dir, f))
        ts = [threading.Thread(target=work) for _ in range(CORES)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise CheckError(str(errs[0]))
        flat = [r for rs in results if rs for r in rs]
        for j, rs in enumerate(results):
            if rs is None and not found:
                self.undecided += ['%s:%d: %s' % (e + (reason.get(j, 'not run within the time of the check'),)) for e in jobs[j]]
        for r in flat:
            r['crate'] = crate.name
        self.res += flat
        return flat

    def judge(self, crate, results, describe=None, covers=(), validate=2, known=None):
        """violations (replayed), inconclusive outcomes, vacuity, native validation of sample paths"""
        for r in results:
            for c in r['cex']:
                codes = c['native']
                what = describe(r, c) if describe else ''
                if not c['real']:
                    # an over-approximation of a model: no verdict from this run
                    r['errors'].append('counterexample does not reproduce natively: %s %s %s %s' % (
                        c['kind'], c['inputs'], {p: v[0] for p, v in codes.items()}, what))
                    continue
                if known and known(r, c):
                    continue
                self.violation(crate, r, c, codes, what)
        # runs without a verdict: inputs that reach the undecided place are at least tried
        for r in results:
            if (r['errors'] or r['incomplete']) and not r['cex'] and len(self.viol) < 5:
                for x in r['probes']:
                    rc, out = crate.replay(r['entry'], r['arg'], x, pad=True)
                    self.probed += 1
                    kind = 'native run at an undecided place' if rc in (3, 101) else None
                    if crate.name in ('gen', 'cli') and rc == 6 and 'outside the stubs' in out and not self.compiles(out):
                        kind = 'the generated text is not valid Rust'
                    if kind:
                        self.violation(crate, r, {'kind': kind, 'inputs': x}, {'dev': (rc, out)},
                                       describe(r, {'inputs': x}) if describe else '')
                        break
        if self.viol:
            return
        partial = False
        for r in results:
            why = None
            if r['errors']:
                why = r['errors'][0][:600]
            elif r['incomplete'] and not r['cex']:
                why = r['incomplete']
            if why:
                partial = True
                self.undecided.append('%s:%s: %s' % (r['entry'], r['arg'], why))
                continue
            if not r['cex'] and (r['paths'] == 0 or r['asserts'] == 0):
                self.trouble.append('vacuous harness: %s:%s' % (r['entry'], r['arg']))
            self.decided[r['entry']] = self.decided.get(r['entry'], 0) + 1
        got = set()
        for r in results:
            got |= set(int(x) for x in r['covers'])
        miss = set(covers) - got
        if miss and not partial and not self.undecided and not any(r['cex'] for r in results):
            self.trouble.append('vacuous: cover points %s not reached' % sorted(miss))
        # the encoding must agree with the real build on sample paths
        if validate:
            step = max(1, len(results) // 40)
            for r in results[::step]:
                for s in r['samples'][:validate]:
                    rc, out = crate.replay(r['entry'], r['arg'], s)
                    if rc == 6:
                        continue
                    if rc != 0:
                        self.trouble.append('encoding disagrees with the native build: %s:%s %s -> %d %s' % (
                            r['entry'], r['arg'], s, rc, out[-500:]))
                        continue
                    self.validated += 1
                    if len(self.samples) < 6:
                        self.samples.append({'harness': '%s:%s' % (r['entry'], r['arg']), 'inputs': s, 'native': 'agrees',
                                             'meaning': describe(r, {'inputs': s}) if describe else ''})

    def compiles(self, out):
        """is the generated text that a native run showed last, and that the interpreter cannot read, a Rust module?"""
        notes = [x for x in out.splitlines() if x.startswith('note: "') and 'PluralRule' in x]
        if not notes or self.compiled >= 12:
            return True
        self.compiled += 1
        esc = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}
        text = re.sub(r'\\(u\{([0-9a-f]+)\}|.)', lambda m: chr(int(m.group(2), 16)) if m.group(2) else esc.get(m.group(1), m.group(1)),
                      notes[-1][7:-1])
        c = Crate('genck', {'src/rules.rs': text})
        rc, out = sh(['cargo', 'check', '--offline', '--quiet'], cwd=c.dir, timeout=300,
                     env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'target-genck')))
        if rc == 0:
            return True
        log('rustc: ' + ' | '.join(x for x in out.splitlines() if x.startswith('error'))[:300])
        # what does not depend on the text has to compile
        c = Crate('genck', {'src/rules.rs': '\n'})
        rc, out = sh(['cargo', 'check', '--offline', '--quiet'], cwd=c.dir, timeout=300,
                     env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'target-genck')))
        return rc != 0

    def violation(self, crate, r, c, codes, what):
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        n = len(self.viol)
        p = os.path.join(d, '%s-%d.json' % (self.prop, n))
        json.dump({'property': self.prop, 'crate': crate.name, 'entry': r['entry'], 'arg': r['arg'], 'kind': c['kind'],
                   'inputs': c['inputs'], 'what': what, 'trace': c.get('trace', [])[:12],
                   'native': {k: {'exit': v[0], 'output': v[1][-800:]} for k, v in codes.items()}}, open(p, 'w'), indent=1)
        self.viol.append((p, what))
        notes = sorted(set(x for v in codes.values() for x in v[1].splitlines() if x.startswith(('note:', 'assert'))))
        if n < 20:
            log('counterexample: %s:%s %s inputs=%s %s %s' % (r['entry'], r['arg'], c['kind'], c['inputs'], what, ' '.join(notes)[:300]))

    def plain_violation(self, what, data):
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.viol)))
        json.dump(dict(data, property=self.prop, what=what), open(p, 'w'), indent=1, default=str)
        self.viol.append((p, what))
        log('counterexample: ' + what)

    # ------------------------------------------------------------------ evidence
    def finish(self):
        R = self.res

        def tot(k):
            return sum(r[k] for r in R)
        funcs = set()
        for r in R:
            funcs |= set(r['funcs'])
        repo = sorted(f for f in funcs if re.search(r'intl_pluralrules|cldr_pluralrules_parser|make_pluralrules', f))
        cov = {
            'states': tot('paths'),
            'transitions': tot('steps'),
            'traces_validated_against_impl': self.validated,
            'samples': self.samples,
            'explanation': 'states: complete symbolic paths; transitions: IR instructions executed symbolically; '
                           'traces_validated_against_impl: sample paths whose solver values were run through the native build with the same outcome',
            'harnesses': len(R),
            'assertions_discharged': tot('asserts'),
            'queries': tot('queries'),
            'queries_unsat': tot('unsat'),
            'queries_sat': tot('sat'),
            'queries_unknown': tot('unknown'),
            'solver_s': round(tot('solver_s'), 3),
            'max_query_s': max([r['max_query_s'] for r in R] or [0]),
            'forks': tot('forks'),
            'functions_encoded': len(funcs),
            'repo_functions_encoded': sorted(set(demangle(f) for f in repo))[:400],
            'bounds': self.bounds,
            'native_probes_of_undecided_runs': self.probed,
            'outside_the_bounds_because_undecided': self.undecided,
            'solver': 'z3 (incremental, bit-vectors + IEEE floats), cvc5 as fallback',
        }
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for x in self.undecided[:10]:
            log('UNDECIDED: ' + x)
        for k in self.known:
            log('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        log('%s %s: %d harness runs, %d paths, %d assertions, %d queries, %.1f s solver, %.1f s wall, %d native validations' % (
            self.prop, self.tier, len(R), cov['states'], cov['assertions_discharged'], cov['queries'], cov['solver_s'], ev['wall_s'], self.validated))
        for p, what in self.viol[:5]:
            log('VIOLATION property=%s replay=%s' % (self.prop, p))
        if self.viol:
            return 1
        if self.trouble:
            raise CheckError(self.trouble[0])
        # the verdict covers the runs that were decided, and the others are listed as outside the bounds;
        # it takes a share of the runs, and some of every harness
        names = set(x.split(':')[0] for x in self.undecided)
        if len(self.undecided) > 9 * sum(self.decided.values()) or any(not self.decided.get(x) for x in names):
            raise CheckError('inconclusive: ' + self.undecided[0])
        return 0


def demangle(f):
    """the path of a v0-mangled name, without crate hashes and generic arguments"""
    if not f.startswith('_R'):
        return f
    out, s = [], re.sub(r'Cs[0-9A-Za-z]*_', '', f[2:])
    k = 0
    while k < len(s):
        m = re.match(r'[1-9][0-9]*', s[k:])
        if m and len(s) > k + m.end():
            n = int(m.group(0))
            j = k + m.end()
            if s[j] == '_':
                j += 1
            w = s[j:j + n]
            if len(w) == n and re.match(r'[A-Za-z_]', w):
                out.append(w)
                k = j + n
                continue
        k += 1
    return '::'.join(out)
