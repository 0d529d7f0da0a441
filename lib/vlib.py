"""Common machinery of the checks: builds drivers from /repo's working tree, runs TLC, validates
traces and writes evidence.  The verdicts are TLC's; this file only moves data around."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CREFL_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
DRIVERS = os.path.join(VERIF, 'drivers')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 2)
CORE = ['asn1', 'buf', 'db', 'dump', 'link', 'model', 'oid', 'sha256', 'types']

class ToolError(Exception):
    pass

class Reject(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data

def tlaval(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(tlaval(x) for x in sorted(v, key=str)) + '}'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tlaval(x) for x in v) + '>>'
    return str(v)

def operand(x):
    if isinstance(x, list):
        if x[0] == 'n': return str(sum(b << (8 * i) for i, b in enumerate(x[1])))
        return bytes(x[1]).hex() or '-'
    return str(x)

def scripts(printed):
    """behaviours printed by a model as JSON -> driver scripts"""
    return [[' '.join(operand(x) for x in cmd) for cmd in json.loads(p)] for p in printed]

class Check:
    def __init__(self, pid, technique='TLA+ model checking with TLC and trace validation'):
        self.pid, self.technique = pid, technique
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s-%d-%s' % (pid, self.seed, self.tier))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='crefl-%s-' % pid)
        os.chmod(self.scratch, 0o755)
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.cov = [], [], {}
        self.violations = []
        self.assumptions = []
        self.optypes = {}

    # ---------------------------------------------------------------- build
    def build(self, name, sources, libs=None, extra=None, san=True, cc='g++', std='-std=c++17', opt='-O1'):
        """compile driver sources + the core library sources of the working tree"""
        out = os.path.join(self.scratch, name)
        objdir = os.path.join(self.scratch, 'obj-' + name)
        os.makedirs(objdir, exist_ok=True)
        flags = [opt, '-g', '-DNDEBUG', '-include', 'cstdint', std, '-w', '-fno-omit-frame-pointer',
                 '-I', os.path.join(REPO, 'include'), '-I', DRIVERS, '-I', VERIF]
        if san:
            flags += ['-fsanitize=address']
        flags += extra or []
        if libs is None:
            libs = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, 'src'))
                          if f.endswith('.cc') and f != 'reflect.cc')
        srcs = [os.path.join(REPO, 'src', l + '.cc') for l in libs if os.path.exists(os.path.join(REPO, 'src', l + '.cc'))]
        srcs += [s if os.path.isabs(s) else os.path.join(DRIVERS, s) for s in sources]
        def one(s):
            o = os.path.join(objdir, hashlib.md5(s.encode()).hexdigest()[:8] + '.o')
            how = [cc] + flags
            if s.endswith('.c'):
                how = ['gcc'] + [f for i, f in enumerate(flags) if f not in (std, '-include', 'cstdint')] + ['-std=c11', '-D_DEFAULT_SOURCE']
            r = subprocess.run(how + ['-c', s, '-o', o], capture_output=True, text=True)
            if r.returncode:
                raise ToolError('compiling %s failed:\n%s' % (s, r.stderr[-3000:]))
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, srcs))
        r = subprocess.run([cc] + (['-fsanitize=address'] if san else []) + objs + ['-o', out] , capture_output=True, text=True)
        if r.returncode:
            raise ToolError('linking %s failed:\n%s' % (name, r.stderr[-3000:]))
        return out

    def pydriver(self, name, *args):
        """a driver written in Python (it runs the project's tools); called as NAME ARGS SCRIPT TRACE"""
        p = os.path.join(self.scratch, 'run-' + name)
        with open(p, 'w') as f:
            f.write('#!/bin/sh\nexec %s %s %s "$@"\n' % (sys.executable, os.path.join(DRIVERS, name), ' '.join(args)))
        os.chmod(p, 0o755)
        return p

    def cmake_build(self, targets, opts=()):
        """the project's own build of plugin and tools, in scratch space"""
        b = os.path.join(self.scratch, 'build')
        env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
        r = subprocess.run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                            '-DLLVM_CONFIG=/opt/llvm/bin/llvm-config', '-DCMAKE_C_FLAGS=-Wno-error',
                            '-DCMAKE_CXX_FLAGS=-Wno-error -include cstdint'] + list(opts),
                           capture_output=True, text=True, env=env)
        if r.returncode:
            raise ToolError('cmake failed:\n' + r.stderr[-3000:])
        r = subprocess.run(['ninja', '-C', b] + list(targets), capture_output=True, text=True, env=env)
        if r.returncode:
            raise ToolError('build failed:\n' + r.stdout[-3000:])
        return b

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, heap='1500m', timeout=600, args=(), cwd=None, stack='64m', dfs=False):
        """run TLC; returns dict(out, rc, generated, distinct, diameter)"""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        e = dict(os.environ); e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
        cmd = ['java', gc, '-Xmx' + heap, '-Xss' + stack, '-XX:TieredStopAtLevel=4', '-DTLA-Library=' + SPECS,
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
               '-config', (cfg or module) + '.cfg', *args, module + '.tla']
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=cwd or SPECS,
                             start_new_session=True, errors='replace')
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate()
            raise ToolError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        g = re.findall(r'(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found', out)
        gen, dis = (int(x.replace(',', '')) for x in g[-1]) if g else (0, 0)
        m = re.findall(r'depth of the complete state graph search is (\d+)', out)
        return dict(out=out, rc=p.returncode, generated=gen, distinct=dis, depth=int(m[-1]) if m else 0)

    def model(self, module, cfg=None, workers=NCPU, timeout=600, env=None, heap='6g', note='', consts=None):
        """exhaustive model checking; a violated invariant of the *specification* is an error of the check.
        consts overrides CONSTANTS of the configuration file"""
        t = time.time()
        if consts:
            text = open(os.path.join(SPECS, (cfg or module) + '.cfg')).read()
            for k, v in consts.items():
                text, n = re.subn(r'(?m)^(\s*)%s *=.*$' % k, lambda m: '%s%s = %s' % (m.group(1), k, tlaval(v)), text)
                if n != 1:
                    raise ToolError('no constant %s in %s' % (k, cfg or module))
            cfg = os.path.join(self.scratch, '%s-%d' % (module, len(self.models)))
            open(cfg + '.cfg', 'w').write(text)
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, env=env)
        if r['rc'] != 0 or 'No error has been found' not in r['out']:
            raise ToolError('model %s/%s failed (rc %d):\n%s' % (module, cfg or module, r['rc'], r['out'][-4000:]))
        self.states += r['distinct']; self.transitions += r['generated']
        self.models.append(dict(module=module, cfg=os.path.basename(cfg or module), constants={k: str(v)[:200] for k, v in (consts or {}).items()}, distinct_states=r['distinct'],
                                transitions=r['generated'], depth=r['depth'], wall_s=round(time.time() - t, 1), note=note))
        return r

    def printed(self, out, tag):
        """values printed by TLC as PrintT(<<tag, string>>)"""
        res = []
        for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, out):
            res.append(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
        return res

    def _trace_run(self, module, trace, env, timeout):
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise ToolError('empty trace ' + trace)
        r = self.tlc(module, env=dict(env or {}, TRACE=trace), workers=1, timeout=timeout, heap='2500m', stack='900m')
        m = re.findall(r'<<"TRACE_DIAMETER", (\d+), (\d+)>>', r['out'])
        if not m:
            raise ToolError('no verdict from TLC for %s on %s:\n%s' % (module, trace, r['out'][-3500:]))
        d, k = int(m[-1][0]), int(m[-1][1])
        if k != n:
            raise ToolError('TLC saw %d of %d trace lines' % (k, n))
        return d - 1, n, r

    def run_driver(self, exe, script, trace, timeout=120, args=(), env=None):
        """run the driver on a script; whatever happens the trace tells (Crash/Hang events)"""
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:symbolize=0:max_malloc_fill_size=67108864'
        e['MALLOC_PERTURB_'] = '165'      # fresh memory is not zero by chance
        e.update(env or {})
        err = trace + '.err'
        try:
            with open(err, 'w') as ef:
                r = subprocess.run([exe, script, trace, *args], stdout=subprocess.DEVNULL, stderr=ef, timeout=timeout, env=e)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        data = open(trace, 'rb').read() if os.path.exists(trace) else b''
        if data and not data.endswith(b'\n'):
            data = data[:data.rfind(b'\n') + 1]
            open(trace, 'wb').write(data)
        if rc == 66:
            raise ToolError('driver script error: ' + open(err).read()[-500:])
        ended = data.rstrip().endswith(b'{"op":"End"}')
        if not ended:
            last = data.rstrip().split(b'\n')[-1]
            if b'"op":"Crash"' not in last and b'"op":"Hang"' not in last:
                with open(trace, 'ab') as f:
                    f.write(b'{"op":"%s"}\n' % (b'Hang' if rc == 'timeout' else b'Crash'))
        return rc

    def conform(self, module, exe, sessions, name, shards=None, timeout=600, dtimeout=120, env=None, args=(), per_shard=6000):
        """sessions: list of lists of script lines (each session starts from a fresh state).
        Replays them on the real code and has TLC validate what was recorded."""
        if not sessions:
            raise ToolError('no sessions for ' + name)
        t_start = time.time()
        nlines = sum(len(s) for s in sessions)
        k = shards or max(1, min(len(sessions), max(NCPU if nlines > 400 else 1, -(-nlines // per_shard))))
        # round robin by weight
        order = sorted(range(len(sessions)), key=lambda i: -len(sessions[i]))
        buckets = [[] for _ in range(k)]; w = [0] * k
        for i in order:
            j = w.index(min(w)); buckets[j].append(i); w[j] += len(sessions[i]) + 1
        buckets = [sorted(b) for b in buckets if b]
        def work(b, tag='', redo=False):
            sp = os.path.join(self.scratch, '%s-%s.script' % (name, tag)); tp = sp[:-7] + '.ndjson'
            with open(sp, 'w') as f:
                for i in b:
                    f.write('session\n'); f.write('\n'.join(sessions[i])); f.write('\n')
                f.write('end\n')
            self.run_driver(exe, sp, tp, timeout=dtimeout, args=args, env=env)
            acc, n, r = self._trace_run(module, tp, env, timeout)
            return b, acc, n, tp, r
        bad = None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for b, acc, n, tp, r in ex.map(lambda x: work(x[1], str(x[0])), list(enumerate(buckets))):
                self.events += acc
                self.states += r['distinct']; self.transitions += r['generated']
                if acc == n:
                    self.traces += len(b)
                elif bad is None:
                    bad = (b, acc, n, tp)
        if os.environ.get('CREFL_VERBOSE'):
            print('%s: %d sessions, %.1fs' % (name, len(sessions), time.time() - t_start), flush=True)
        if bad is None:
            self._sample(name, buckets, sessions)
            return True
        # confirm: the rejected session alone, from scratch
        b, acc, n, tp = bad
        lines = open(tp).read().splitlines()
        sess = sum(1 for l in lines[:acc + 1] if '"op":"Session"' in l) - 1
        idx = b[max(0, min(sess, len(b) - 1))]
        _, acc2, n2, tp2, _ = work([idx], 'confirm')
        if acc2 == n2:      # depends on what came before in the process: repeat the whole shard
            _, acc2, n2, tp2, _ = work(b, 'confirm2')
            if acc2 == n2:
                raise ToolError('rejection of %s did not repeat' % name)
        l2 = open(tp2).read().splitlines()
        ev = l2[acc2] if acc2 < len(l2) else '?'
        err = open(tp2 + '.err').read()[-1500:] if os.path.exists(tp2 + '.err') else ''
        raise Reject('%s: the specification %s does not allow event %d: %s' % (name, module, acc2 + 1, ev[:400]),
                     dict(check=self.pid, stage=name, module=module, script=sessions[idx], event_index=acc2 + 1,
                          event=ev, previous=l2[max(0, acc2 - 3):acc2], stderr=err, shard=[sessions[i] for i in b] if len(l2) and acc2 != n2 and tp2.endswith('confirm2.ndjson') else None))

    def _sample(self, name, buckets, sessions):
        s = sessions[buckets[0][len(buckets[0]) // 2]]
        self.samples.append({'stage': name, 'script': [x[:200] for x in s[:12]]})

    def validate_file(self, module, lines, name, env=None, timeout=600):
        """validate a trace assembled by the harness from outputs of the real tools; returns (accepted, total)"""
        tp = os.path.join(self.scratch, name + '.ndjson')
        with open(tp, 'w') as f:
            for l in lines:
                f.write(l if isinstance(l, str) else json.dumps(l)); f.write('\n')
        acc, n, r = self._trace_run(module, tp, env, timeout)
        self.states += r['distinct']; self.transitions += r['generated']; self.events += acc
        return acc, n

    # ---------------------------------------------------------------- results
    def evidence(self, violations):
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'technique': self.technique,
            'coverage': dict({
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces, 'events_validated': self.events,
                'samples': self.samples[:12] or [{'stage': 'none'}], 'models': self.models}, **self.cov),
            'assumptions': self.assumptions or ['x86-64 little-endian host, as built by /opt/vp/build.sh'],
            'wall_s': round(time.time() - self.t0, 2), 'violations': violations,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)

    def known(self):
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt'); res = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3)))
        return res

def main(pid, body, **kw):
    c = Check(pid, **kw)
    rc = 3
    try:
        try:
            body(c)
            for key, what in c.known():
                print('KNOWN-FINDING: property=%s %s' % (pid, what))
            c.evidence([])
            print('%s: held on everything explored (%d model states, %d traces, %d events, %.1fs)' %
                  (pid, sum(m['distinct_states'] for m in c.models), c.traces, c.events, time.time() - c.t0))
            rc = 0
        except Reject as r:
            d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, pid + '.json')
            json.dump(dict(r.data, what=r.what, seed=c.seed, tier=c.tier), open(p, 'w'), indent=1)
            c.evidence([{'what': r.what[:600], 'replay': p}])
            print(r.what[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, p))
            rc = 1
        except ToolError as t:
            print('%s: check could not run: %s' % (pid, t))
            rc = 3
    finally:
        if os.environ.get('CREFL_KEEP'):
            print('scratch kept at', c.scratch)
        else:
            shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
