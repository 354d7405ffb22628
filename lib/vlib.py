"""Common machinery of the checks: building /repo's working tree, running
instrumented harnesses over ranges of cases, collecting what the monitors saw,
reporting."""
import atexit, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REF = os.path.join(VERIF, 'ref')
JOBS = 8
CLIS = ('compress', 'uncompress', 'preprocess', 'postprocess')

VARIANTS = {
    # as the repository's own build here: optimised, assertions on
    'dbg': ['-O2', '-g1'],
    # as the README's Release build
    'rel': ['-O3', '-DNDEBUG', '-fomit-frame-pointer'],
    'san': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=alignment',
            '-fno-sanitize-recover=all'],
    'san2': ['-O2', '-g1', '-DNDEBUG', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=alignment',
             '-fno-sanitize-recover=all'],
    # every basic block executed is counted (harness/steps.c)
    'steps': ['-O1', '-DNDEBUG', '-fsanitize-coverage=trace-pc', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'],
    'chk': ['-O1', '-g1', '-D_GLIBCXX_DEBUG', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
            '-fno-sanitize=alignment', '-fno-sanitize-recover=all'],
}
ENV = dict(os.environ)
ENV.pop('LD_PRELOAD', None)
ENV['LC_ALL'] = 'C'
ENV['ASAN_OPTIONS'] = 'detect_leaks=1:exitcode=86:allocator_may_return_null=0:abort_on_error=0:detect_stack_use_after_return=1'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=87'


class BuildError(Exception):
    pass


class Inconclusive(Exception):
    pass


class Stop(Exception):
    """Enough violations were seen; the rest of the workload would add nothing."""


def sources(root):
    """(library sources, {program: main source}) found in the tree."""
    libs, mains = [], {}
    skip = {'test', 'tests', '_build', 'build', '.git', 'bin', 'CMakeFiles', 'examples', 'benchmarks', 'fuzz', 'fixtures', 'doc', 'docs'}
    for d, subs, files in os.walk(root):
        subs[:] = sorted(s for s in subs if s not in skip and not s.startswith('.'))
        for f in sorted(files):
            if not f.endswith(('.cpp', '.cc', '.cxx', '.c')):
                continue
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                text = fh.read()
            if re.search(rb'^\s*(int|auto)\s+main\s*\(', text, re.M):
                mains[os.path.splitext(f)[0]] = p
            else:
                libs.append(p)
    return libs, mains


def kill(p):
    """The process and everything it started."""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    try:
        p.kill()
    except Exception:
        pass


class Check:
    def __init__(self, pid, tier, seed, level, rule):
        self.pid, self.tier, self.seed, self.level, self.rule = pid, tier, seed, level, rule
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='vp-%s-' % pid)
        atexit.register(self.cleanup)
        signal.signal(signal.SIGTERM, lambda *_: sys.exit(143))
        self.built = {}
        self.harn = {}
        self.evaluations = 0
        self.prints = set()
        self.ctr, self.maxi = {}, {}
        self.samples = []
        self.violations = []   # dicts key,msg,replay
        self.assumptions = []
        self.notes = []
        self.lock = threading.Lock()
        self.known = load_known(pid)
        self.known_hit = set()
        self.procs = set()
        self.stopped = False

    # ---- bookkeeping ----
    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def mkdir(self, name):
        p = self.path(name)
        os.makedirs(p, exist_ok=True)
        return p

    def next_id(self):
        with self.lock:
            self.ids = getattr(self, 'ids', 0) + 1
            return self.ids

    def count(self, name, n=1):
        with self.lock:
            self.ctr[name] = self.ctr.get(name, 0) + n

    def max(self, name, n):
        with self.lock:
            if n > self.maxi.get(name, -1):
                self.maxi[name] = n

    def case(self, fingerprint=None, desc=None, n=1):
        with self.lock:
            self.evaluations += n
            if fingerprint is not None:
                self.prints.add(fingerprint)
            if desc and len(self.samples) < 14 and (len(self.samples) < 6 or self.evaluations % 97 == 0):
                self.samples.append(desc)

    def violation(self, key, msg, replay=None):
        """key names what fails (kind and place), msg the details."""
        with self.lock:
            for k in self.known:
                if re.search(k, key + ' ' + msg):
                    if k not in self.known_hit:
                        self.known_hit.add(k)
                        print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
                    return
            self.violations.append({'key': key, 'msg': msg, 'replay': replay or {}})
            hangs = sum(1 for v in self.violations if 'hang' in v['key'] or 'does not end' in v['msg'])
            if hangs >= 2 or len(self.violations) >= 40 or time.time() - self.t0 > 400:
                self.stop()

    def stop(self):
        self.stopped = True
        for p in list(self.procs):
            kill(p)

    def alive(self):
        """Ends the workload early: after enough violations, or when a slow machine would exceed the limit of a check."""
        if self.stopped:
            raise Stop()
        if self.tier == 'quick' and time.time() - self.t0 > 780:
            if 'workload cut short by the time limit' not in self.notes:
                self.notes.append('workload cut short by the time limit')
            raise Stop()

    def popen(self, cmd, **k):
        self.alive()
        p = subprocess.Popen(cmd, start_new_session=True, **k)
        self.procs.add(p)
        if self.stopped:
            kill(p)
        return p

    def exec(self, cmd, timeout, input=None, **k):
        """subprocess.run that stop() can end."""
        if input is not None:
            k['stdin'] = subprocess.PIPE
        p = self.popen(cmd, **k)
        try:
            try:
                out, err = p.communicate(input, timeout=timeout)
            except BaseException:
                kill(p)
                p.communicate()
                raise
            if self.stopped:
                raise Stop()
            return subprocess.CompletedProcess(cmd, p.returncode, out, err)
        finally:
            self.procs.discard(p)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- building ----
    def lib(self, variant, root=None, extra=()):
        """Object files of the library part of the tree in the given variant."""
        root = root or REPO
        key = (variant, root)
        if key in self.built:
            return self.built[key]
        out = self.mkdir('o-%s-%s' % (variant, 'ref' if root == REF else 'repo'))
        libs, mains = sources(root)
        if variant == 'steps':
            libs = libs + [os.path.join(VERIF, 'harness', 'steps.c')]
        flags = VARIANTS[variant] + ['-w', '-I' + root] + list(extra)
        objs = []

        def comp(src, i):
            o = os.path.join(out, '%03d-%s.o' % (i, os.path.basename(src)))
            cc = ['gcc'] if src.endswith('.c') else ['g++']
            r = subprocess.run(cc + flags + ['-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            return src, o, r.returncode, r.stdout.decode('utf-8', 'replace')
        with ThreadPoolExecutor(JOBS) as ex:
            jobs = [ex.submit(comp, s, i) for i, s in enumerate(libs)]
            mjobs = {m: ex.submit(comp, mains[m], 900 + k) for k, m in enumerate(sorted(mains)) if m in CLIS}
            for j in jobs:
                s, o, rc, txt = j.result()
                if rc != 0:
                    # an unused stray source file must not stop the check; a needed one fails at link time
                    self.notes.append('not compiled: %s' % s)
                    sys.stderr.write(txt[-3000:])
                    continue
                objs.append(o)
            mo = {}
            for m, j in mjobs.items():
                s, o, rc, txt = j.result()
                if rc != 0:
                    raise BuildError('cannot compile %s:\n%s' % (s, txt[-3000:]))
                mo[m] = o
        a = os.path.join(out, 'lib.a')
        subprocess.run(['ar', 'crs', a] + objs, check=True)
        self.built[key] = (out, a, mo)
        return self.built[key]

    def cli(self, variant, root=None):
        """Directory with the four programs."""
        root = root or REPO
        out, a, mo = self.lib(variant, root)

        def link(m):
            exe = os.path.join(out, m)
            if os.path.exists(exe):
                return
            r = subprocess.run(['g++'] + VARIANTS[variant] + [mo[m], a, a, '-lboost_program_options', '-o', exe],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if r.returncode != 0:
                raise BuildError('cannot link %s:\n%s' % (m, r.stdout.decode('utf-8', 'replace')[-3000:]))
        for m in CLIS:
            if m not in mo:
                raise BuildError('no main program %s in the tree' % m)
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(link, CLIS))
        return out

    def harness(self, name, variant, root=None, extra=()):
        """Builds a harness against the tree; None if its interface is gone."""
        root = root or REPO
        key = (name, variant, root)
        if key in self.harn:
            return self.harn[key]
        out, a, mo = self.lib(variant, root)
        exe = os.path.join(out, 'h-' + name)
        for minimal in ([], ['-DVERIF_MINIMAL']):
            # VERIF_MINIMAL leaves out what the programs do not use, in case the tree no longer has it
            r = subprocess.run(['g++'] + VARIANTS[variant] + list(extra) + minimal + ['-w', '-I' + root, '-I' + os.path.join(VERIF, 'harness'),
                               os.path.join(VERIF, 'harness', name + '.cpp'), a, a, '-o', exe],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if r.returncode == 0:
                break
        if r.returncode == 0 and minimal:
            self.notes.append('harness %s built without the parts the programs do not use' % name)
        if r.returncode != 0:
            txt = r.stdout.decode('utf-8', 'replace')
            self.notes.append('harness %s does not build against this tree (%s); the programs alone are watched' % (name, variant))
            sys.stderr.write(txt[-3000:])
            exe = None
        self.harn[key] = exe
        return exe

    def tool(self, name, flags=(), shared=False):
        out = self.path(name + ('.so' if shared else '.bin'))
        if not os.path.exists(out):
            subprocess.run(['gcc', '-O2', '-w'] + (['-shared', '-fPIC'] if shared else []) +
                           [os.path.join(VERIF, 'harness', name + '.c'), '-o', out] + list(flags), check=True, env=ENV)
        return out

    def prebuild(self, *specs):
        """Builds harnesses ('name', 'variant') and programs ('cli', 'variant'[, root]) side by side."""
        libs = []
        for s in specs:
            k = (s[1], s[2] if len(s) > 2 else None)
            if k not in libs:
                libs.append(k)
        parallel(lambda k: self.lib(*k), libs)
        parallel(lambda s: self.cli(*s[1:]) if s[0] == 'cli' else self.harness(s[0], s[1]), specs)
        self.log('built %s' % ' '.join('%s/%s' % (s[0], s[1]) for s in specs))

    # ---- running harnesses ----
    def run_harness(self, name, variant, total, mode='', maxlen=20000, limit=60, start=0, root=None, wrapper=(), tag=None, seed=None, chunk=None, env=None):
        exe = self.harness(name, variant, root)
        if exe is None:
            return False
        tag = tag or '%s/%s/%s' % (name, mode or '-', variant)
        seed = self.seed if seed is None else seed
        scratch = self.mkdir('scr')
        # small chunks, handed to whoever is free
        n = chunk or max(1, min(200, (total - start + 8 * 6 - 1) // (8 * 6)))
        ranges = [(a, min(a + n, total)) for a in range(start, total, n)]
        dead = [0]

        def work(rg):
            a, b = rg
            while a < b:
                if dead[0] > 60:
                    return
                pf = tempfile.mktemp(dir=scratch)
                hf = pf + '.h'
                wd = pf + '.d'
                os.mkdir(wd)
                cmd = list(wrapper) + [exe, '--seed', str(seed), '--from', str(a), '--to', str(b), '--mode', mode or '-',
                                       '--maxlen', str(maxlen), '--limit', str(limit), '--progress', pf, '--hashes', hf, '--dir', wd]
                try:
                    r = self.exec(cmd, limit * 4 + 30 * (b - a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, cwd=wd)
                    rc, out, err = r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
                except subprocess.TimeoutExpired as e:
                    rc, out, err = 77, 'HANG', ''
                shutil.rmtree(wd, ignore_errors=True)
                stat = None
                for l in out.splitlines():
                    if l.startswith('VIOL '):
                        v = json.loads(l[5:])
                        self.violation('%s %s' % (tag, v['key']), 'case %d: %s [%s]' % (v['case'], v['msg'], v['desc']),
                                       {'harness': name, 'variant': variant, 'mode': mode, 'maxlen': maxlen, 'seed': seed, 'case': v['case'], 'desc': v['desc']})
                    elif l.startswith('STAT '):
                        stat = json.loads(l[5:])
                if stat is not None:
                    with self.lock:
                        self.evaluations += stat['evals']
                        for k, x in stat['ctr'].items():
                            self.ctr[tag.split('/')[0] + ':' + k] = self.ctr.get(tag.split('/')[0] + ':' + k, 0) + x
                        for k, x in stat['max'].items():
                            kk = tag.split('/')[0] + ':' + k
                            self.maxi[kk] = max(self.maxi.get(kk, 0), x)
                        if len(self.samples) < 14 and stat['samples']:
                            self.samples.append(tag + ' ' + stat['samples'][-1])
                    if os.path.exists(hf):
                        with open(hf, 'rb') as f:
                            d = f.read()
                        hs = struct.unpack('<%dQ' % (len(d) // 8), d)
                        with self.lock:
                            self.prints.update(hs)
                        os.unlink(hf)
                    if os.path.exists(pf):
                        os.unlink(pf)
                    if rc != 0:   # e.g. leaks found at exit
                        self.died(tag, name, variant, mode, maxlen, seed, b - 1, 'at exit after cases %d..%d' % (a, b - 1), rc, err, leak_range=(a, b))
                    return
                cur, desc = a, '?'
                if os.path.exists(pf):
                    with open(pf) as f:
                        t = f.read()
                    if t.strip():
                        cur, desc = int(t[:20]), t[20:].strip()
                    os.unlink(pf)
                dead[0] += 1
                if rc in (77, 137, -9) or 'HANG' in out[-20:]:
                    # no end, or killed for its memory: only counts if it repeats, with a much larger limit
                    r2 = self.single(exe, seed, cur, mode, maxlen, limit * 4, wrapper, env)
                    if r2 is None:
                        self.violation('%s hang' % tag, 'case %d does not finish within %d s [%s]' % (cur, limit * 4, desc),
                                       {'harness': name, 'variant': variant, 'mode': mode, 'maxlen': maxlen, 'seed': seed, 'case': cur, 'desc': desc})
                    else:
                        self.count('slow_cases_repeated')
                        if 'VIOL ' in r2[1] or r2[0] != 0:
                            self.died(tag, name, variant, mode, maxlen, seed, cur, desc, r2[0], r2[2] + r2[1])
                elif rc == 2:
                    raise Inconclusive('harness usage error')
                else:
                    self.died(tag, name, variant, mode, maxlen, seed, cur, desc, rc, err)
                a = cur + 1
        parallel(work, ranges)
        self.alive()
        self.log('%s: %d cases' % (tag, total - start))
        return True

    def single(self, exe, seed, c, mode, maxlen, limit, wrapper=(), env=None):
        wd = tempfile.mkdtemp(dir=self.dir)
        try:
            r = self.exec(list(wrapper) + [exe, '--seed', str(seed), '--from', str(c), '--to', str(c + 1), '--mode', mode or '-', '--maxlen', str(maxlen),
                          '--limit', str(limit), '--dir', wd], limit + 60, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, cwd=wd)
        except subprocess.TimeoutExpired:
            return None
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        if r.returncode == 77:
            return None
        return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')

    def died(self, tag, name, variant, mode, maxlen, seed, cur, desc, rc, err, leak_range=None):
        self.violation('%s died rc=%d %s' % (tag, rc, crash_key(err)), 'case %d [%s] ended the process: rc=%d %s' % (cur, desc, rc, crash_text(err)),
                       {'harness': name, 'variant': variant, 'mode': mode, 'maxlen': maxlen, 'seed': seed, 'case': cur, 'desc': desc,
                        'range': leak_range})

    # ---- programs ----
    def run(self, cmd, stdin=None, timeout=60, env=None, cwd=None, stdout=subprocess.PIPE, preexec=None, input=None):
        """Runs a program; a time-out is tried again with a longer limit before it counts."""
        for k in (1, 3):
            try:
                r = self.exec(cmd, timeout * k, input=input, stdin=(subprocess.DEVNULL if stdin is None else stdin),
                              stdout=stdout, stderr=subprocess.PIPE, env=env or ENV, cwd=cwd or self.dir, preexec_fn=preexec)
                return Res(r.returncode, r.stdout or b'', r.stderr or b'')
            except subprocess.TimeoutExpired:
                if hasattr(stdin, 'seek'):
                    try:
                        stdin.seek(0)
                    except Exception:
                        pass
                continue
        return Res(None, b'', b'no end within %d s' % (timeout * 3))

    # ---- the end ----
    def finish(self):
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.prints), 'rule': self.rule,
               'samples': self.samples[:14], 'observed': dict(sorted(self.ctr.items())), 'maxima': dict(sorted(self.maxi.items()))}
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        replay = None
        if self.violations:
            rd = os.path.join(evdir, 'replay')
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for v in self.violations:
                k = re.sub(r'\d+', '#', v['key'])
                seen.setdefault(k, []).append(v)
            replay = os.path.join(rd, self.pid + '.json')
            with open(replay, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'violations': self.violations[:50]}, f, indent=1, default=str)
            for k, vs in list(seen.items())[:12]:
                print('  %s (%d): %s' % (vs[0]['key'], len(vs), vs[0]['msg'][:600]))
        tmp = os.path.join(evdir, '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(evdir, self.pid + '.json'))
        self.log('%d evaluations, %d distinct non-trivial, %d violations' % (self.evaluations, len(self.prints), len(self.violations)))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, replay), flush=True)
            return 1
        return 0


class Res:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def hang(self):
        return self.rc is None

    def text(self):
        return self.err.decode('latin1')[-300:]


def crash_key(err):
    k = []
    for l in err.splitlines():
        m = re.search(r'ERROR: (\w+Sanitizer: [\w-]+)', l) or re.search(r'runtime error: (.*)', l) or re.search(r'(Assertion .*) failed', l) or re.search(r'terminate called', l)
        if m:
            k.append(re.sub(r'0x[0-9a-f]+|-?\d+', '#', m.group(0))[:120])
            break
    for l in err.splitlines():
        if re.match(r'\s+#\d+ ', l) and ('/repo/' in l or '/ref/' in l):
            m = re.search(r' in (.*?)\(?.*?(/repo/|/ref/)(\S+?):', l)
            k.append((m.group(3) if m else l.strip())[:120])
            break
    return ' '.join(k)


def crash_text(err):
    ls = [l for l in err.splitlines() if l.strip()]
    keep = [l for l in ls if 'runtime error' in l or 'ERROR' in l or 'Assert' in l or 'terminate' in l or 'what()' in l]
    fr = [l.strip() for l in ls if re.match(r'\s+#\d+ ', l) and '/repo/' in l][:3]
    return ' | '.join(keep[:2] + fr) or ' | '.join(ls[-2:])


def load_known(pid):
    """Lines 'known: property=<id> <regular expression>' suppress exactly what they match."""
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) (.*)', l.strip())
            if m and m.group(1) == pid:
                r.append(m.group(2))
    return r


def sha(b):
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), 'little')


def parallel(fn, items, jobs=JOBS):
    stop = []

    def f(x):
        if stop:
            return None
        try:
            return fn(x)
        except Stop as e:
            stop.append(e)
    with ThreadPoolExecutor(jobs) as ex:
        r = list(ex.map(f, items))
    if stop:
        raise stop[0]
    return r
