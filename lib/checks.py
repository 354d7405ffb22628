"""One function per property. Each runs the real code under the workloads of
the tier and lets the monitors decide."""
import math, resource, stat
from common import *
import archive

HOW = ['ff', 'ff', 'fs', 'sf', 'ss']
RT_RULE = 'distinct (input, options) pairs with more than one input byte that went through the code under the monitor'


# memory limits nobody has, around the 64 bits that hold them in bytes
LIMITS = ('1000000', '1000000000', '1000000000000', str((1 << 64) // 1000000), str((1 << 64) // 1000000 + 1), str(1 << 53), str(1 << 54), str((1 << 54) + 1),
          str(1 << 58), str((1 << 63) + 5), str((1 << 64) - 1))


def scale(ck, q, t):
    return t if ck.tier == 'thorough' else q


def cli_cases(ck, cdir, udir, n, maxlen, tag, prepr, mems=(1, 1, 2, 10), seed_off=0):
    ins = gen_inputs(ck, n, maxlen, tag, seed_off)
    rng = random.Random('%s-%s-%d' % (ck.pid, tag, ck.seed))
    jobs = [(i, opts(rng, prepr, mems), rng.choice(HOW)) for i in ins]
    parallel(lambda j: cli_roundtrip(ck, cdir, udir, j[0], j[1], tag, j[2]), jobs)
    ck.log('%s: %d program cases' % (tag, n))


def P01(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('roundtrip', 'rel'), ('roundtrip', 'dbg'), ('huffman', 'rel'), ('cli', 'rel'), ('cli', 'dbg'))
    rel, dbg = ck.cli('rel'), ck.cli('dbg')
    ck.run_harness('huffman', 'rel', q(4000, 60000), '', 20000)
    ck.run_harness('huffman', 'rel', q(300, 5000), '', 600000, limit=120)
    ck.run_harness('huffman', 'rel', q(3, 9), 'huge', limit=300, chunk=1)
    ck.run_harness('roundtrip', 'rel', q(6000, 120000), 'plain', 20000)
    ck.run_harness('roundtrip', 'dbg', q(2500, 60000), 'plain', 6000, seed=ck.seed + 1000)
    ck.run_harness('roundtrip', 'rel', q(8000, 150000), 'plain', 300, seed=ck.seed + 3000)
    ck.run_harness('roundtrip', 'dbg', q(1092, 9840), 'exh')
    ck.run_harness('roundtrip', 'rel', q(512, 2560), 'alpha')
    ck.run_harness('roundtrip', 'rel', q(96, 1500), 'plain', 1500000, limit=120, seed=ck.seed + 2000, chunk=2)
    cli_cases(ck, rel, rel, q(150, 2500), 700000, 'programs', False)
    jobs = []
    for inp in directed_inputs(ck):
        for e in CODERS:
            if inp.size > 1000000 and ck.tier == 'quick' and e in 'mMu' and 'shuffled' not in inp.fam:
                continue
            jobs.append((inp, ['-e', e] + (['-m', '1'] if 'boundary' in inp.fam else []), rel if e in 'BHm' else dbg))
        jobs.append((inp, ['-s', '256', '-m', '3'], rel))
        jobs.append((inp, ['-s', '1', '--bwt', 's'], rel))
    jobs.sort(key=lambda j: -j[0].size)
    parallel(lambda j: cli_roundtrip(ck, j[2], rel, j[0], j[1], 'directed'), jobs)
    # one long run, over the 2^16, 2^24 and 2^26 limits
    big = put(ck, 'long-run', b'\x01\x02' + b'\xc8' * 70000000 + b'ddd')
    parallel(lambda e: cli_roundtrip(ck, rel, rel, big, ['-m', '400', '-e', e], 'long-run', timeout=300), 'BH' if ck.tier == 'quick' else CODERS, jobs=3)
    rm(big.path)
    if ck.tier == 'thorough':
        big = put(ck, 'huge-run', bytes([1, 2, 3]) + b'\xc8' * 540000000 + b'ddd')
        cli_roundtrip(ck, rel, rel, big, ['-m', '3000', '-e', 'H'], 'huge-run', timeout=900)
        rm(big.path)
    # very large memory limit with a small input
    small = put(ck, 'small', b'abracadabra' * 1000)
    for m in ('0', '1', '1000', '12000', '100000') + LIMITS:
        cli_roundtrip(ck, dbg, dbg, small, ['-m', m], 'memory-limit', timeout=300)


def P02(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('roundtrip', 'rel'), ('roundtrip', 'dbg'), ('pairs', 'rel'), ('cli', 'rel'), ('cli', 'dbg'))
    rel, dbg = ck.cli('rel'), ck.cli('dbg')
    ck.run_harness('roundtrip', 'rel', q(2500, 50000), 'prepr', 20000)
    ck.run_harness('roundtrip', 'dbg', q(1000, 20000), 'prepr', 5000, seed=ck.seed + 1000)
    ck.run_harness('roundtrip', 'rel', q(1500, 40000), 'prepr', 400, seed=ck.seed + 3000)
    ck.run_harness('roundtrip', 'rel', q(364, 3279), 'exhp')
    ck.run_harness('pairs', 'rel', q(600, 12000), '', 20000)
    ck.run_harness('pairs', 'rel', q(120, 4000), '', 200000, seed=ck.seed + 2000)
    ck.run_harness('pairs', 'rel', q(600, 12000), 'many', 120000, seed=ck.seed + 3000)
    ck.run_harness('roundtrip', 'rel', q(500, 10000), 'grammar', 120000, seed=ck.seed + 4000)
    ck.run_harness('roundtrip', 'rel', q(64, 1200), 'max', 500000, seed=ck.seed + 5000, limit=120, chunk=2)
    ck.run_harness('pairs', 'rel', q(64, 1200), 'max', 600000, seed=ck.seed + 6000, limit=120, chunk=2)
    ck.run_harness('pairs', 'rel', q(16, 300), 'front', 5000000, seed=ck.seed + 7000, limit=200, chunk=1)
    ck.run_harness('pairs', 'rel', q(400, 10000), 'api', 1000)
    ck.run_harness('roundtrip', 'rel', q(400, 10000), 'round', 30000)
    ck.run_harness('roundtrip', 'dbg', q(100, 3000), 'round', 30000, seed=ck.seed + 9000)
    cli_cases(ck, rel, rel, q(100, 2000), 500000, 'programs', True, mems=(1, 1, 2))
    ins = gen_inputs(ck, q(150, 3000), 120000, 'prepost', 7)
    rng = random.Random('P02-%d' % ck.seed)
    jobs = [(i, ['--prepr', 'p' * rng.randint(0, 5), '-b', str(rng.choice([0, 1, 1, 2, 5, 30, 100, 1000]))], rng.choice(HOW)) for i in ins]
    rng2 = random.Random('directed-pairs-%d' % ck.seed)
    # every byte value in use, one pair dominating, runs of one byte
    l = [c for c in range(256) if c not in (97, 98)] * 1000
    rng2.shuffle(l)
    for k, body in enumerate((b'aaab' * 2500, b'aaaab' * 2500, b'aab' * 4000, b'ab' * 5000, b'aaaaab' * 2000)):
        d = put(ck, 'all-bytes-and-pairs-%d' % k, bytes(l) + body)
        for p in ('p', 'pp', 'ppppp'):
            jobs.append((d, ['--prepr', p], 'ff'))
    d = put(ck, 'empty-pp', b'')
    jobs.append((d, ['--prepr', 'pp'], 'ff'))
    jobs.append((d, [], 'ss'))
    parallel(lambda j: cli_prepost(ck, rel if len(j[1]) % 2 else dbg, rel, j[0], j[1], 'prepost', j[2]), jobs)
    # limits over the memory of any machine, and over 64 bits in bytes
    small = put(ck, 'small', b'abracadabra' * 1000)
    for m in ('100000',) + LIMITS:
        cli_roundtrip(ck, rel, rel, small, ['-m', m, '--prepr', 'pp'], 'memory-limit', timeout=300)
        cli_prepost(ck, rel, dbg, small, ['-b', m, '--prepr', 'p'], 'block-limit', 'ff')
    dirs = [i for i in directed_inputs(ck, big=False) if i.size < 700000]
    jobs = [(i, ['--prepr', 'p' * k, '-m', '1', '-e', e]) for i in dirs for k, e in ((1, 'B'), (3, 'H'), (2, 'm'))]
    parallel(lambda j: cli_roundtrip(ck, dbg, rel, j[0], j[1], 'directed'), jobs)


def P03(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('bwt', 'dbg'), ('bwt', 'rel'))
    ck.run_harness('bwt', 'dbg', q(1092, 29523), 'exh')
    ck.run_harness('bwt', 'rel', q(8000, 150000), '', 20000)
    ck.run_harness('bwt', 'dbg', q(3000, 50000), '', 3000, seed=ck.seed + 1000)
    ck.run_harness('bwt', 'rel', q(15000, 400000), '', 400, seed=ck.seed + 8000)
    ck.run_harness('bwt', 'rel', q(100, 2000), '', 1500000, limit=200, seed=ck.seed + 2000, chunk=2)
    ck.run_harness('bwt', 'rel', q(8000, 150000), 'tandem', 2500, seed=ck.seed + 4000)
    ck.run_harness('bwt', 'rel', q(300, 5000), 'tandem', 60000, seed=ck.seed + 5000)
    ck.run_harness('bwt', 'rel', q(2500, 40000), 'alternating', 9000, seed=ck.seed + 6000)
    ck.run_harness('bwt', 'rel', q(24, 300), 'alternating', 1500000, limit=200, seed=ck.seed + 7000, chunk=1)
    ck.run_harness('bwt', 'rel', q(8, 60), 'huge', 30000000, limit=400, seed=ck.seed + 3000, chunk=1)
    if None in ck.harn.values():
        P03_programs(ck)


def P03_programs(ck):
    # without the interface: the programs, both algorithms, must agree and invert
    rel = ck.cli('rel')
    for i in gen_inputs(ck, 100, 300000, 'fallback'):
        a = cli_roundtrip(ck, rel, rel, i, ['--bwt', 'd'], 'programs')
        b = cli_roundtrip(ck, rel, rel, i, ['--bwt', 's'], 'programs')
        if a is not None and b is not None and a != b:
            ck.violation('programs algorithms-differ', str(i))


def P04(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('cli', 'rel'), ('cli', 'dbg'), ('roundtrip', 'rel'))
    rel, dbg = ck.cli('rel'), ck.cli('dbg')
    ck.run_harness('roundtrip', 'rel', q(160, 4000), 'history', 7000)
    n = q(70, 900)
    ins = gen_inputs(ck, n, 260000, 'det')
    rng = random.Random('P04-%d' % ck.seed)
    ins.append(put(ck, 'empty', b''))
    ins.append(put(ck, 'one', b'\xff'))
    jobs = []
    for i in ins:
        jobs.append((i, rng.choice(['compress', 'compress', 'compress', 'preprocess']), rng.randint(0, 1 << 30)))

    def env(**k):
        e = dict(ENV)
        e.update(k)
        return e

    def job(j):
        inp, prog, sd = j
        r = random.Random(sd)
        d = ck.path('det-%d' % ck.next_id())
        os.mkdir(d)
        data = inp.data()
        try:
            if prog == 'compress':
                o = ['-e', r.choice(CODERS), '-m', r.choice(['1', '1', '2']), '-s', str(r.choice([1, 8, 256]))]
                if r.random() < 0.3:
                    o += ['--prepr', 'p' * r.randint(1, 3)]
                back = 'uncompress'
            else:
                o = ['--prepr', 'p' * r.randint(1, 3), '-b', str(r.choice([1, 20, 1000]))]
                back = 'postprocess'
            desc = '%s %s %s' % (prog, inp, ' '.join(o))

            def variants(prog, opt, src, data, small):
                """yields (name, output bytes or None, result) of running prog over src in different ways"""
                first = []

                def f(name, args, **kw):
                    out = os.path.join(d, 'v-' + name)
                    res = ck.run([rel + '/' + prog] + opt + args + [src, out], **kw)
                    b = read(out)
                    rm(out)
                    first.append(b)
                    return name, b, res
                yield f('file', [])
                yield f('repeat', [])
                yield f('perturb', [], env=env(MALLOC_PERTURB_=str(r.randint(1, 255))))
                yield f('verbose-%d' % (1 + sd % 4), ['-v', str(1 + sd % 4)])
                if small:
                    yield f('verbose-9', ['-v', '9'])
                if prog == 'compress':
                    for a in 'dsa':
                        yield f('bwt-' + a, ['--bwt', a])
                out = os.path.join(d, 'v-dbg')
                res = ck.run([dbg + '/' + prog] + opt + [src, out])
                yield 'other-build', read(out), res
                # other names, another directory, another environment, long options behind the files
                sub = os.path.join(d, r.choice(['sub', 'a b', '\u00e4\u00f6', 'x' * 120, '-e']))
                os.makedirs(sub, exist_ok=True)
                nm = r.choice(['in', 'in put', '\u00e9.gz', 'n' * 200, 'in.bwtc', '%s', "q'\"q"])
                shutil.copy(src, os.path.join(sub, nm))
                os.chmod(os.path.join(sub, nm), r.choice([0o400, 0o644, 0o755]))
                os.utime(os.path.join(sub, nm), (r.randint(0, 1 << 31),) * 2)
                long = {'-e': '--enc', '-m': '--mem', '-s': '--starts', '-b': '--block', '-v': '--verb'}
                o2 = []
                for k in range(0, len(opt), 2):
                    n, v = long.get(opt[k], opt[k]), opt[k + 1]
                    o2.append([n + '=' + v] if n.startswith('--') and v and r.random() < 0.5 else [n, v])
                r.shuffle(o2)
                o2 = [x for y in o2 for x in y]
                e2 = r.choice([{}, {'LC_ALL': 'C.UTF-8', 'TZ': 'Asia/Tokyo', 'HOME': '/nonexistent'}, {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'de_DE', 'POSIXLY_CORRECT': '1', 'COLUMNS': '20'}])
                names = [os.path.join('.', nm), 'out']
                res = ck.run([rel + '/' + prog] + (o2 + names if r.random() < 0.5 else names + o2), cwd=sub, env=e2)
                yield 'elsewhere', read(os.path.join(sub, 'out')), res
                shutil.rmtree(sub, ignore_errors=True)
                # an existing longer output file
                out = os.path.join(d, 'v-old')
                with open(out, 'wb') as fh:
                    fh.write(b'Z' * (len(data) * 2 + 5000))
                res = ck.run([rel + '/' + prog] + opt + [src, out])
                yield 'existing-output', read(out), res
                # standard input in pieces, output to a pipe
                res = slow_feed(ck, [rel + '/' + prog] + opt + ['-i', '-c'], data, r, cwd=d)
                yield 'pipe-pipe', res.out, res
                with open(src, 'rb') as fi:
                    res = ck.run([rel + '/' + prog] + opt + ['-i', '-c'], stdin=fi)
                yield 'stdin-pipe', res.out, res
                res = ck.run([rel + '/' + prog] + opt + ['-c', src])
                yield 'file-pipe', res.out, res
                # redirected, at the start and after something else, and appended
                for kind in ('redirect', 'offset', 'append', 'inside'):
                    out = os.path.join(d, 'v-' + kind)
                    pre = b'' if kind == 'redirect' else os.urandom(0) + b'#' * (1 + sd % 9000)
                    # inside: into the middle of a longer file, whose end has to stay
                    post = b'@' * (len(data) + 70000 + sd % 1000) if kind == 'inside' else b''
                    with open(out, 'wb') as fh:
                        fh.write(pre + post)
                    fd = os.open(out, os.O_WRONLY | (os.O_APPEND if kind == 'append' else 0))
                    if kind in ('offset', 'inside'):
                        os.lseek(fd, len(pre), os.SEEK_SET)
                    with open(src, 'rb') as fi:
                        res = ck.run([rel + '/' + prog] + opt + ['-i', '-c'], stdin=fi, stdout=fd)
                    os.close(fd)
                    b = read(out)
                    if b is not None:
                        b = b[len(pre):] if b[:len(pre)] == pre else b
                        if kind == 'inside':
                            k = len(b.rstrip(b'@'))
                            n = first[0] if first and first[0] is not None else b''
                            b = b[:len(n)] if len(b) == max(len(post), len(n)) and k <= len(n) else b
                    yield kind, b, res
                # far into a sparse file: positions of more than 31 and 32 bits
                far = (1 << 31) - 300 if sd % 2 else (1 << 32) - 300
                out = os.path.join(d, 'v-far')
                fd = os.open(out, os.O_WRONLY | os.O_CREAT)
                res = None
                try:
                    os.pwrite(fd, b'x', far + len(data) * 8 + 100000)   # can the file system do it at all?
                    os.ftruncate(fd, 0)
                    os.lseek(fd, far, os.SEEK_SET)
                    with open(src, 'rb') as fi:
                        res = ck.run([rel + '/' + prog] + opt + ['-i', '-c'], stdin=fi, stdout=fd)
                except OSError as e:
                    ck.count('no_large_files')
                finally:
                    os.close(fd)
                if res is not None:
                    b = None
                    if os.stat(out).st_blocks < 1 << 20:   # else something filled it up
                        with open(out, 'rb') as fh:
                            fh.seek(far)
                            b = fh.read()
                    rm(out)
                    yield 'far', b, res
                else:
                    rm(out)
                res = slow_feed(ck, [rel + '/' + prog] + opt + ['-i', '--output-file', os.path.join(d, 'v-so')], data, r, cwd=d)
                yield 'pipe-file', read(os.path.join(d, 'v-so')), res
                # a named pipe as the input file
                ff = os.path.join(d, 'fifo')
                os.mkfifo(ff)
                t = threading.Thread(target=lambda: feed_fifo(ff, data), daemon=True)
                t.start()
                out = os.path.join(d, 'v-fifo')
                res = ck.run([rel + '/' + prog] + opt + [ff, out])
                os.close(os.open(ff, os.O_RDONLY | os.O_NONBLOCK))   # lets the feeder go if the program never opened it
                t.join(10)
                rm(ff)
                yield 'fifo-file', read(out), res

            def compare(prog, opt, src, data, small):
                ref = None
                for name, b, res in variants(prog, opt, src, data, small):
                    ck.count('variant_runs')
                    if res.rc != 0:
                        ck.violation('%s %s failed' % (prog, name), '%s: %s' % (desc, describe_run(res)), {'kind': 'determinism', 'input': str(inp), 'options': o, 'variant': name})
                        continue
                    if ref is None:
                        ref = b
                        continue
                    if b != ref:
                        ck.violation('%s %s differs' % (prog, name), '%s: %s' % (desc, first_diff(ref, b)), {'kind': 'determinism', 'input': str(inp), 'options': o, 'variant': name})
                    ck.case(sha((desc + prog + name).encode()) if inp.size > 1 else None, desc + ' ' + name if name == 'pipe-pipe' else None)
                    ck.count('compared_' + re.sub(r'-\d$', '', name))
                return ref
            arc = compare(prog, o, inp.path, data, inp.size < 3000)
            if arc is not None:
                ap = os.path.join(d, 'arc')
                with open(ap, 'wb') as fh:
                    fh.write(arc)
                compare(back, [], ap, arc, len(arc) < 1500)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    parallel(job, jobs)


def feed_fifo(path, data):
    try:
        with open(path, 'wb', buffering=0) as f:
            k = 0
            while k < len(data):
                k += f.write(data[k:k + 30011])
    except (BrokenPipeError, OSError):
        pass


def P05(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('rangecoder', 'dbg'), ('rangecoder', 'rel'), ('wavelet', 'dbg'), ('wavelet', 'rel'), ('roundtrip', 'dbg'))
    ck.run_harness('rangecoder', 'dbg', q(6000, 100000), '', 60000)
    ck.run_harness('rangecoder', 'rel', q(6000, 100000), '', 60000, seed=ck.seed + 1000)
    ck.run_harness('wavelet', 'dbg', q(3000, 60000), '', 20000)
    ck.run_harness('wavelet', 'rel', q(4000, 60000), '', 20000, seed=ck.seed + 1000)
    ck.run_harness('wavelet', 'rel', q(40, 600), '', 2000000, limit=200, seed=ck.seed + 2000, chunk=2)
    ck.run_harness('rangecoder', 'rel', q(40, 400), '', 3000000, limit=200, seed=ck.seed + 2000, chunk=2)
    if None in ck.harn.values():
        ck.run_harness('roundtrip', 'dbg', 2000, 'plain', 20000)


def P06(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('codes', 'dbg'), ('codes', 'rel'), ('roundtrip', 'dbg'), ('wavelet', 'dbg'), ('huffman', 'dbg'))
    ck.run_harness('huffman', 'dbg', q(2000, 30000), '', 12000)
    ck.run_harness('huffman', 'rel', q(6000, 100000), '', 300, seed=ck.seed + 1000)
    ck.run_harness('codes', 'dbg', q(4096, 65536), 'huff', 6000)
    ck.run_harness('codes', 'rel', q(4096, 65536), 'huff', 20000, seed=ck.seed + 1000)
    ck.run_harness('roundtrip', 'dbg', q(1280, 5120), 'alpha')
    ck.run_harness('wavelet', 'dbg', q(1000, 10000), '', 20000)


def P07(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('codes', 'dbg'), ('codes', 'rel'))
    ck.run_harness('codes', 'dbg', q(6000, 100000), 'ints', 3000)
    ck.run_harness('codes', 'rel', q(6000, 100000), 'ints', 3000, seed=ck.seed + 1000)
    ck.run_harness('codes', 'rel', q(300, 3000), 'ints', 300000, seed=ck.seed + 2000)


def P08(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('streams', 'dbg'), ('streams', 'rel'), ('cli', 'rel'))
    ck.run_harness('streams', 'dbg', q(6000, 100000), '')
    ck.run_harness('streams', 'rel', q(6000, 100000), '', seed=ck.seed + 1000)
    # the same through standard streams of the programs: what goes in comes out
    rel = ck.cli('rel')
    ins = [i for i in directed_inputs(ck, big=False) if i.size < 400000]
    jobs = [(i, h) for i in ins for h in ('ss', 'fs', 'sf')]
    parallel(lambda j: cli_prepost(ck, rel, rel, j[0], ['-b', '50'], 'copy', j[1]), jobs)


def reported_size(r):
    m = re.search(rb'(?i)compressed\s+size\D*(\d+)', r.err)
    return int(m.group(1)) if m else None


def P09(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('roundtrip', 'rel'), ('roundtrip', 'dbg'), ('pairs', 'rel'), ('cli', 'rel'))
    rel = ck.cli('rel')
    ck.run_harness('roundtrip', 'rel', q(3000, 40000), 'plain', 20000)
    ck.run_harness('roundtrip', 'dbg', q(700, 10000), 'prepr', 8000)
    ck.run_harness('roundtrip', 'rel', q(40, 600), 'plain', 1200000, seed=ck.seed + 2000, chunk=2)
    ck.run_harness('pairs', 'rel', q(200, 3000), '', 20000)
    ck.run_harness('roundtrip', 'rel', q(150, 3000), 'grammar', 120000, seed=ck.seed + 4000)
    ins = gen_inputs(ck, q(220, 3000), 900000, 'sizes', 3) + [i for i in directed_inputs(ck)]
    rng = random.Random('P09-%d' % ck.seed)

    def job(j):
        inp, o, mem, chan = j
        arc = ck.path('sz-%d' % ck.next_id())
        desc = '%s %s' % (inp, ' '.join(o))
        rep = {'kind': 'sizes', 'input': str(inp), 'options': o}
        try:
            if chan == 'f':
                r = ck.run([rel + '/compress'] + o + ['-v', '1', inp.path, arc])
            else:
                r = ck.run([rel + '/compress'] + o + ['-v', '1', '-c', inp.path])
                with open(arc, 'wb') as f:
                    f.write(r.out)
            if r.rc != 0:
                ck.violation('sizes compress-failed', '%s: %s' % (desc, describe_run(r)), rep)
                return
            data = read(arc)
            rs = reported_size(r)
            if rs is None:
                ck.count('no_size_reported')
            elif rs != len(data):
                ck.violation('sizes reported-size', '%s: reported %d, archive has %d bytes' % (desc, rs, len(data)), rep)
            try:
                w = archive.walk(data)
            except archive.Bad as e:
                ck.violation('sizes structure', '%s: %s' % (desc, e), rep)
                return
            tot = sum(b['original'] for b in w['blocks'])
            if tot != inp.size:
                ck.violation('sizes original-size', '%s: original sizes add up to %d, input has %d bytes' % (desc, tot, inp.size), rep)
            limit = mem * 1000000
            prepr = '--prepr' in o
            for b in w['blocks']:
                n = sum(s['size'] for s in b['slices'])
                if b['original'] > limit * (0.75 if prepr else 0.1851):
                    ck.violation('sizes block-limit', '%s: block of %d bytes' % (desc, b['original']), rep)
                if (b['rules'] == 0 and n != b['original']) or n > b['original']:
                    ck.violation('sizes section-lengths', '%s: sections add up to %d, block has %d bytes' % (desc, n, b['original']), rep)
                for s in b['slices']:
                    if s['size'] > limit / 4.49 or s['size'] == 0:
                        ck.violation('sizes slice-limit', '%s: slice of %d bytes with limit %d' % (desc, s['size'], limit), rep)
                    if 0 in s['sections']:
                        ck.violation('sizes empty-section', desc, rep)
                    ck.count('length_fields_checked')
                    ck.count('sections_checked', len(s['sections']))
                    ck.max('sections_in_block', len(s['sections']))
                ck.count('precompressor_blocks')
            ck.max('blocks_in_archive', len(w['blocks']))
            ck.case(sha(desc.encode()) if inp.size > 1 else None, desc)
        finally:
            rm(arc)
    jobs = []
    for i in ins:
        mem = rng.choice([1, 1, 1, 2, 3, 20])
        o = ['-m', str(mem), '-e', rng.choice(CODERS), '-s', str(rng.choice([1, 2, 8, 255, 256])), '--bwt', rng.choice('dsa')]
        if rng.random() < 0.3 and i.size < 1000000:
            o += ['--prepr', 'p' * rng.randint(1, 3)]
        jobs.append((i, o, mem, rng.choice('ffp')))
    parallel(job, jobs)
    # a block size that takes five bytes in its packed form
    big = put(ck, 'long-run', b'\0' * ((1 << 28) + 1000) + b'end')
    job((big, ['-m', '1500', '-e', 'H'], 1500, 'f'))
    rm(big.path)

    # preprocessed files and trailing data: the decoder takes exactly its archive
    def job2(j):
        inp, o, sd = j
        base = ck.path('sp-%d' % ck.next_id())
        rep = {'kind': 'sizes', 'input': str(inp), 'options': o}
        try:
            r = ck.run([rel + '/preprocess'] + o + ['-v', '1', inp.path, base])
            if r.rc != 0:
                ck.violation('sizes preprocess-failed', '%s: %s' % (inp, describe_run(r)), rep)
                return
            try:
                bl = archive.walk_preprocessed(read(base))
            except archive.Bad as e:
                ck.violation('sizes preprocessed-structure', '%s %s: %s' % (inp, o, e), rep)
                return
            m = re.search(rb'(?i)total\s+size\D*(\d+)', r.err)
            if not m:
                ck.count('no_size_reported')
            elif int(m.group(1)) != inp.size:
                ck.violation('sizes preprocess-reported-size', '%s %s: reported %s, input has %d bytes' % (inp, o, m.group(1).decode(), inp.size), rep)
            m = re.search(rb'(?i)read\s+(\d+)\s+block', r.err)
            if m and int(m.group(1)) != len(bl):
                ck.violation('sizes preprocess-reported-blocks', '%s %s: reported %s, file has %d' % (inp, o, m.group(1).decode(), len(bl)), rep)
            ck.count('preprocessed_files')
        finally:
            rm(base)
    parallel(job2, [(i, ['-b', str(rng.choice([1, 10, 200])), '--prepr', 'p' * rng.randint(0, 3)], k) for k, i in enumerate(ins[:q(80, 800)] + [put(ck, 'sp-empty', b'')])])


def P10(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('roundtrip', 'san'), ('bwt', 'san'), ('wavelet', 'san'), ('rangecoder', 'san'), ('codes', 'san'), ('streams', 'san'), ('pairs', 'san'), ('huffman', 'san'), ('roundtrip', 'san2'), ('wavelet', 'san2'), ('cli', 'san'), ('cli', 'san2'), ('cli', 'dbg'))
    ck.run_harness('roundtrip', 'san', q(1500, 30000), 'plain', 12000)
    ck.run_harness('roundtrip', 'san', q(250, 8000), 'prepr', 6000)
    ck.run_harness('roundtrip', 'san', q(120, 1092), 'exh')
    ck.run_harness('roundtrip', 'san', q(39, 363), 'exhp')
    ck.run_harness('bwt', 'san', q(1500, 30000), '', 12000)
    ck.run_harness('bwt', 'san', q(363, 3279), 'exh')
    ck.run_harness('wavelet', 'san', q(600, 15000), '', 12000)
    ck.run_harness('huffman', 'san', q(600, 15000), '', 12000)
    ck.run_harness('huffman', 'san', q(24, 400), '', 400000, limit=200, chunk=2)
    ck.run_harness('rangecoder', 'san', q(600, 10000), '', 20000)
    ck.run_harness('codes', 'san', q(1024, 10240), 'huff', 4000)
    ck.run_harness('codes', 'san', q(1000, 10000), 'ints', 3000)
    ck.run_harness('streams', 'san', q(1000, 10000), '')
    ck.run_harness('pairs', 'san', q(150, 4000), '', 12000)
    ck.run_harness('pairs', 'san', q(40, 2000), 'many', 40000)
    ck.run_harness('pairs', 'san', q(16, 400), 'max', 300000, limit=200, chunk=1)
    ck.run_harness('pairs', 'san', q(8, 200), 'front', 1500000, limit=200, chunk=1)
    ck.run_harness('pairs', 'san', q(100, 2000), 'api', 1000)
    ck.run_harness('roundtrip', 'san', q(100, 3000), 'round', 20000)
    # as released: no assertions, and the optimiser at work
    ck.run_harness('roundtrip', 'san2', q(1500, 20000), 'plain', 30000, seed=ck.seed + 1000)
    ck.run_harness('roundtrip', 'san2', q(250, 8000), 'prepr', 12000, seed=ck.seed + 1000)
    ck.run_harness('roundtrip', 'san2', q(16, 300), 'plain', 1000000, limit=200, seed=ck.seed + 3000, chunk=1)
    ck.run_harness('wavelet', 'san2', q(300, 5000), '', 30000, seed=ck.seed + 1000)
    cdir, c2 = ck.cli('san'), ck.cli('san2')
    cli_cases(ck, cdir, cdir, q(60, 1000), 200000, 'sanitized-programs', None, mems=(1, 1, 2))
    ins = gen_inputs(ck, q(40, 600), 60000, 'san-pp', 11)
    rng = random.Random('P10-%d' % ck.seed)
    parallel(lambda j: cli_prepost(ck, cdir, c2, j[0], j[1], 'sanitized-programs', j[2]),
             [(i, ['--prepr', 'p' * rng.randint(0, 4), '-b', str(rng.choice([1, 3, 50]))], rng.choice(HOW)) for i in ins])
    dirs = [i for i in directed_inputs(ck, big=False) if i.size < 400000 or 'power' in i.fam or i.fam == 'sections-256-runs']
    jobs = [(i, ['-e', e, '-m', '1' if i.size < 400000 else '60']) for i in dirs for e in (CODERS if ck.tier == 'thorough' else 'BHM')]
    jobs += [(i, ['--prepr', 'ppp', '-m', '1']) for i in dirs if i.size < 200000]
    jobs.sort(key=lambda j: -j[0].size)
    parallel(lambda j: cli_roundtrip(ck, c2, cdir, j[0], j[1], 'sanitized-directed', timeout=200), jobs)
    # uninitialised memory: valgrind over the plain build
    if shutil.which('valgrind'):
        d = ck.cli('dbg')
        ins = gen_inputs(ck, q(26, 300), 4000, 'vg', 13) + [put(ck, 'vg-empty', b''), put(ck, 'vg-one', b'x'), put(ck, 'vg-all', bytes(range(256)) * 3)]
        vg = ['valgrind', '-q', '--error-exitcode=99', '--undef-value-errors=yes', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect', '--show-leak-kinds=definite,indirect']

        def vjob(j):
            inp, o = j
            a, b = ck.path('vg-%d' % ck.next_id()), ck.path('vg-%d' % ck.next_id())
            try:
                two = [['compress'] + o + [inp.path, a], ['uncompress', a, b]] if o[0] == '-e' else [['preprocess'] + o + [inp.path, a], ['postprocess', a, b]]
                for c in two:
                    r = ck.run(vg + [d + '/' + c[0]] + c[1:], timeout=300)
                    if r.rc != 0:
                        t = r.err.decode('latin1')
                        m = re.search(r'==\d+== (.*)', t)
                        fr = re.findall(r'(?:at|by) 0x[0-9A-F]+: (.*)', t)[:3]
                        ck.violation('memcheck %s rc=%s %s' % (c[0], r.rc, m.group(1) if m else ''), '%s %s: %s' % (inp, o, ' < '.join(fr)), {'kind': 'valgrind', 'input': str(inp), 'options': o})
                        return
                if read(b) != inp.data():
                    ck.violation('memcheck output-differs', '%s %s' % (inp, o))
                ck.case(sha(('vg %s %s' % (inp, o)).encode()))
                ck.count('memcheck_runs', 2)
            finally:
                rm(a, b)
        jobs = []
        for k, i in enumerate(ins):
            jobs.append((i, ['-e', CODERS[k % 6], '-s', str(rng.choice([1, 8, 256]))] + (['--prepr', 'pp'] if k % 4 == 0 else [])))
            if k % 3 == 0:
                jobs.append((i, ['--prepr', 'pp', '-b', '1']))
        parallel(vjob, jobs)
        ck.log('memcheck: %d pairs of runs' % len(jobs))
    else:
        ck.notes.append('valgrind is missing: uninitialised reads are not watched')


def P11(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('cli', 'rel'))
    d = ck.cli('rel')
    small = put(ck, 'p11-small', b'hello world, hello wonderful world\n' * 3)
    rng = random.Random('P11-%d' % ck.seed)
    mid = put(ck, 'p11-mid', bytes(rng.choice(b'abcdefgh ') for _ in range(430000)))   # several blocks with -m 1
    rnd = put(ck, 'p11-rnd', bytes(rng.getrandbits(8) for _ in range(200000)))
    empty = put(ck, 'p11-empty', b'')

    def prepared(prog, o, inp):
        """expected output of a program over an input"""
        out = ck.path('p11-%d' % ck.next_id())
        r = ck.run([d + '/' + prog] + o + [inp.path, out])
        b = read(out)
        rm(out)
        if r.rc != 0:
            ck.violation('fault-free run failed', '%s %s: %s' % (prog, o, describe_run(r)))
            return None
        return b
    scen = []   # (program, options, input, expected)
    for inp in (small, mid, rnd, empty):
        for o in (['-m', '1'], ['-m', '1', '-e', 'H'], ['-m', '1', '--prepr', 'p']):
            if o[-1] != '1' and inp is rnd:
                continue
            a = prepared('compress', o, inp)
            if a is None:
                return
            scen.append(('compress', o, inp, a))
            scen.append(('uncompress', [], put(ck, 'p11-a%d' % len(scen), a), inp.data()))
        o = ['--prepr', 'p', '-b', '100']
        a = prepared('preprocess', o, inp)
        if a is None:
            return
        scen.append(('preprocess', o, inp, a))
        scen.append(('postprocess', [], put(ck, 'p11-a%d' % len(scen), a), inp.data()))

    def judge(name, must, r, out, exp, extra=''):
        """must: the failure hit something the result depends on"""
        ck.case(sha(name.encode()), name)
        if out is None and not exp:
            out, must = exp, False   # nothing to write, nothing lost
        if r.hang:
            ck.violation('fault hang ' + name.split(' #')[0], name)
        elif r.rc == 0 and out != exp:
            ck.violation('fault silent-loss ' + name.split(' #')[0], '%s: exit status 0 but the output is wrong (%s)%s' % (name, first_diff(exp, out), extra), {'kind': 'fault', 'name': name})
        elif r.rc == 0 and must:
            ck.violation('fault unreported ' + name.split(' #')[0], '%s: exit status 0%s' % (name, extra), {'kind': 'fault', 'name': name})
        else:
            ck.count('reported' if r.rc else 'harmless')
    # --- injected system-call failures ---
    strace = shutil.which('strace')
    ok = False
    if strace:
        r = ck.run([strace, '-qq', '-o', '/dev/null', '-e', 'trace=write', '-e', 'inject=write:error=ENOSPC:when=1', '/bin/echo', 'x'])
        ok = r.rc == 1
    if not ok:
        ck.notes.append('strace cannot inject failures here; only real failures were used')
    else:
        # syscall, error, does the result depend on it
        faults = {'in': [('openat', 'EACCES', True), ('read', 'EIO', True), ('close', 'EIO', False), ('lseek', 'EIO', False)],
                  'out': [('openat', 'ENOSPC', True), ('write', 'ENOSPC', True), ('write', 'EIO', True), ('close', 'EIO', True), ('lseek', 'EIO', False), ('fsync', 'EIO', True)]}

        def counts(cmd, side, path, stdin=None):
            log = ck.path('st-%d' % ck.next_id())
            ck.run([strace, '-qq', '-f', '-o', log, '-P', path, '-e', 'trace=openat,read,write,pwrite64,writev,readv,close,lseek,fsync'] + cmd)
            t = (read(log) or b'').decode('latin1')
            rm(log)
            c = {}
            for l in t.splitlines():
                m = re.match(r'(?:\d+ +)?(\w+)\(', l)
                if m:
                    c[m.group(1)] = c.get(m.group(1), 0) + 1
            return c
        jobs = []

        def plan(sc):
            prog, o, inp, exp = sc
            res = []
            for side in ('in', 'out'):
                out = ck.path('fo-%d' % ck.next_id())
                path = inp.path if side == 'in' else out
                with open(out, 'wb'):
                    pass
                c = counts([d + '/' + prog] + o + [inp.path, out], side, path)
                rm(out)
                for sysc, err, must in faults[side]:
                    for s in ([sysc] + (['pwrite64', 'writev'] if sysc == 'write' else ['readv'] if sysc == 'read' else [])):
                        n = c.get(s, 0)
                        for k in range(1, n + 1):
                            if ck.tier == 'quick' and n > 14 and not (k <= 5 or k > n - 5 or k % (n // 4 + 1) == 0):
                                continue
                            res.append((prog, o, inp, exp, side, s, err, k, must, n))
            return res
        for l in parallel(plan, scen):
            jobs += l

        def inject(j):
            prog, o, inp, exp, side, s, err, k, must, n = j
            out = ck.path('fo-%d' % ck.next_id())
            with open(out, 'wb') as f:
                f.write(b'old content')
            path = inp.path if side == 'in' else out
            log = out + '.log'
            r = ck.run([strace, '-qq', '-f', '-o', log, '-P', path, '-e', 'trace=' + s, '-e', 'inject=%s:error=%s:when=%d' % (s, err, k), d + '/' + prog] + o + [inp.path, out], timeout=60)
            t = read(log) or b''
            hit = b'INJECTED' in t
            b = read(out)
            rm(out, log)
            name = '%s %s %s %s/%s call %d of %d fails with %s #%s' % (prog, ' '.join(o), inp.fam, side, s, k, n, err, inp.size)
            if not hit:
                ck.count('injection_not_reached')
                return
            ck.count('injected_' + s)
            judge(name, must, r, b, exp)
        parallel(inject, jobs)
        ck.log('%d system calls made to fail' % len(jobs))
        # the same on standard streams, matched by descriptor: everything through pipes
    # --- real failures ---
    def real(sc):
        prog, o, inp, exp = sc
        exe = d + '/' + prog
        # full device
        r = ck.run([exe] + o + [inp.path, '/dev/full'])
        judge('%s %s %s output on a full device' % (prog, ' '.join(o), inp.fam), True, r, None, exp)
        fd = os.open('/dev/full', os.O_WRONLY)
        r = ck.run([exe] + o + ['-c', inp.path], stdout=fd)
        os.close(fd)
        judge('%s %s %s standard output on a full device' % (prog, ' '.join(o), inp.fam), True, r, None, exp)
        # file size limit at various points
        pts = sorted(set([0, 1, len(exp) // 2, len(exp) - 1]) & set(range(len(exp))))
        for lim in pts:
            out = ck.path('fs-%d' % ck.next_id())

            def lim_fn():
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            r = ck.run([exe] + o + [inp.path, out], preexec=lim_fn)
            judge('%s %s %s file size limited to %d of %d' % (prog, ' '.join(o), inp.fam, lim, len(exp)), True, r, read(out), exp)
            rm(out)
        # closed descriptors
        def closed(fd):
            return lambda: os.close(fd)
        r = ck.run([exe] + o + ['-c', inp.path], stdout=subprocess.DEVNULL, preexec=closed(1))
        judge('%s %s %s standard output closed' % (prog, ' '.join(o), inp.fam), True, r, None, exp)
        r = ck.run([exe] + o + ['-i', '-c'], preexec=closed(0))
        judge('%s %s %s standard input closed' % (prog, ' '.join(o), inp.fam), True, r, r.out, exp)
        # directory as input, directory as output, missing directories
        r = ck.run([exe] + o + ['-c', ck.dir])
        judge('%s %s directory as input' % (prog, ' '.join(o)), True, r, r.out, exp)
        fdd = os.open(ck.dir, os.O_RDONLY)
        r = ck.run([exe] + o + ['-i', '-c'], stdin=fdd)
        os.close(fdd)
        judge('%s %s directory as standard input' % (prog, ' '.join(o)), True, r, r.out, exp)
        r = ck.run([exe] + o + [inp.path, ck.dir])
        judge('%s %s directory as output' % (prog, ' '.join(o)), True, r, None, exp)
        r = ck.run([exe] + o + [inp.path, ck.path('no', 'such', 'dir', 'x')])
        judge('%s %s output in a missing directory' % (prog, ' '.join(o)), True, r, None, exp)
        r = ck.run([exe] + o + [ck.path('no-such-file'), ck.path('never')])
        judge('%s %s missing input' % (prog, ' '.join(o)), True, r, None, exp)
        rm(ck.path('never'))
        # reader goes away
        for take in (0, 1, len(exp) // 2):
            if take >= len(exp):
                continue
            p = ck.popen([exe] + o + ['-c', inp.path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
            if take:
                os.read(p.stdout.fileno(), min(take, 4096))
            p.stdout.close()
            try:
                rc = p.wait(120)
            except subprocess.TimeoutExpired:
                kill(p); p.wait(); rc = None
            ck.procs.discard(p)
            # what is left in the pipe buffer may count as delivered: only more than a pipe holds is certain to fail
            judge('%s %s %s reader leaves after %d bytes' % (prog, ' '.join(o), inp.fam, take), len(exp) > 200000 and take < len(exp), Res(rc, b'', b''), exp, exp)
        ck.count('real_failure_scenarios')
    parallel(real, scen)
    # standard streams under injection: descriptors 0 and 1 are pipes or files
    if ok:
        def std(j):
            prog, o, inp, exp, s, err, k, fdn = j
            log = ck.path('sl-%d' % ck.next_id())
            out = log + '.o'
            fi = open(inp.path, 'rb')
            fo = open(out, 'wb')
            path = inp.path if fdn == 0 else out
            r = ck.run([strace, '-qq', '-f', '-o', log, '-P', path, '-e', 'trace=' + s, '-e', 'inject=%s:error=%s:when=%d' % (s, err, k), d + '/' + prog] + o + ['-i', '-c'], stdin=fi, stdout=fo, timeout=60)
            fi.close(); fo.close()
            hit = b'INJECTED' in (read(log) or b'')
            b = read(out)
            rm(log, out)
            if not hit:
                return
            ck.count('injected_std_' + s)
            judge('%s %s %s standard %s: %s call %d fails with %s' % (prog, ' '.join(o), inp.fam, ('input', 'output')[fdn], s, k, err), s != 'lseek' and s != 'close', r, b, exp)
        jobs = []
        for prog, o, inp, exp in scen:
            for k in range(1, q(4, 12)):
                jobs.append((prog, o, inp, exp, 'read', 'EIO', k, 0))
                jobs.append((prog, o, inp, exp, 'write', 'ENOSPC', k, 1))
                jobs.append((prog, o, inp, exp, 'lseek', 'EIO', k, 1))
            jobs.append((prog, o, inp, exp, 'close', 'EIO', 1, 1))
        parallel(std, jobs)
        ck.log('%d failures on standard streams' % len(jobs))
    # --- memory runs out ---
    so = ck.tool('mfail', shared=True)
    mini = put(ck, 'p11-mini', b'she sells sea shells, she sells sea shells by the sea shore\n' * 20)
    two = put(ck, 'p11-two', bytes(rng.choice(b'abcdefgh ') for _ in range(230000)))
    mem = []
    for inp in (mini, two, rnd):
        for e in 'BH':
            for t in 'ds':
                o = ['-m', '1', '-e', e, '--bwt', t, '-s', rng.choice(['1', '8', '256'])] + (['--prepr', 'pp'] if rng.random() < 0.5 else [])
                a = prepared('compress', o, inp)
                if a is None:
                    return
                mem.append(('compress', o, inp, a))
                mem.append(('uncompress', [], put(ck, 'p11-m%d' % len(mem), a), inp.data()))
    mem += [x for x in scen if x[0] in ('preprocess', 'postprocess')]

    def starved(sc, at, least, rest):
        prog, o, inp, exp = sc
        out = ck.path('mf-%d' % ck.next_id())
        e = dict(ENV, LD_PRELOAD=so, MFAIL_AT=str(at), MFAIL_MIN=str(least), MFAIL_ALL=str(rest), MFAIL_OUT=out + '.n')
        r = ck.run([d + '/' + prog] + o + [inp.path, out], env=e, timeout=60)
        c = [int(x) for x in (read(out + '.n') or b'0 0').split()]
        b = read(out)
        rm(out, out + '.n')
        return r, b, c

    def mplan(j):
        sc, least = j
        r, b, c = starved(sc, 0, least, 0)
        if r.rc != 0 or b != sc[3]:
            ck.violation('fault-free run failed', '%s %s with a counting allocator: %s' % (sc[0], sc[1], describe_run(r)))
            return []
        n = c[0]
        g = random.Random('%s-%s-%d' % (sc[:2], least, ck.seed))
        ks = list(range(1, n + 1))
        lim = q(26, 150)
        if n > lim:
            ks = sorted(set(ks[:lim // 4] + ks[-lim // 4:] + g.sample(ks, lim // 2)))
        return [(sc, k, least, rest, n) for k in ks for rest in ((0, 1) if k % 3 == 0 else (0,))]
    jobs = []
    for l in parallel(mplan, [(sc, least) for sc in mem for least in (0, 600, 20000)]):
        jobs += l

    def mgo(j):
        sc, k, least, rest, n = j
        prog, o, inp, exp = sc
        r, b, c = starved(sc, k, least, rest)
        name = '%s %s %s allocation %d of %d (of at least %d bytes) fails%s #%s' % (prog, ' '.join(o), inp.fam, k, n, least, ', later ones too' if rest else '', inp.size)
        if not c[1]:
            ck.count('injection_not_reached')
            return
        ck.count('injected_allocation')
        judge(name, False, r, b, exp)
    parallel(mgo, jobs)
    ck.log('%d allocations made to fail' % len(jobs))
    # the same with a real limit on the address space
    fat = put(ck, 'p11-fat', random.Random('p11-fat-%d' % ck.seed).randbytes(4000000))
    jobs = []
    for o in (['-m', '1000', '-e', 'B', '--bwt', 'd'], ['-m', '1000', '-e', 'H', '--bwt', 'd', '-s', '1'], ['-m', '1000', '-e', 'H', '--bwt', 's']):
        a = prepared('compress', o, fat)
        if a is None:
            return
        for mb in range(8, 72, q(8, 2)):
            jobs.append(('compress', o, fat, a, mb))
            jobs.append(('uncompress', [], put(ck, 'p11-f%d' % len(jobs), a), fat.data(), mb))

    def tight(j):
        prog, o, inp, exp, mb = j
        out = ck.path('as-%d' % ck.next_id())

        def lim_fn():
            resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        r = ck.run([d + '/' + prog] + o + [inp.path, out], preexec=lim_fn)
        judge('%s %s %s address space of %d MB' % (prog, ' '.join(o), inp.fam, mb), False, r, read(out), exp)
        rm(out)
        ck.count('address_space_limits')
    parallel(tight, jobs)


def P12(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('cli', 'dbg'))
    d = ck.cli('dbg')
    tool = ck.tool('prefixes')
    ins = [i for i in gen_inputs(ck, q(160, 1500), 3000, 'tr') if i.size > 0][:q(70, 700)]
    ins += [put(ck, 'tr-empty', b''), put(ck, 'tr-one', b'Q'), put(ck, 'tr-all', bytes(range(256)))]
    rng = random.Random('P12-%d' % ck.seed)
    files = []   # program, file, lengths

    def make(j):
        inp, prog, o, full = j
        a = ck.path('tra-%d' % ck.next_id())
        r = ck.run([d + '/' + prog] + o + [inp.path, a])
        if r.rc != 0:
            ck.violation('truncation %s-failed' % prog, '%s %s: %s' % (inp, o, describe_run(r)))
            return None
        n = os.path.getsize(a)
        if n <= full:
            lens = list(range(n))
        else:
            data = read(a)
            s = set(range(0, 40)) | set(range(n - 30, n)) | set(rng.sample(range(n), min(n, full // 2)))
            # structure: around every block start
            try:
                if prog == 'compress':
                    s |= set(boundaries(data))
            except archive.Bad:
                pass
            s |= set(x + e for x in range(65536, n, 65536) for e in (-1, 0, 1))
            lens = sorted(x for x in s if 0 <= x < n)
        return ('uncompress' if prog == 'compress' else 'postprocess', a, lens, '%s %s %s' % (prog, inp, ' '.join(o)))
    jobs = []
    for k, i in enumerate(ins):
        if k % 4 == 3:
            jobs.append((i, 'preprocess', ['--prepr', 'p' * rng.randint(0, 3), '-b', rng.choice(['1', '100'])], q(500, 3000)))
        else:
            jobs.append((i, 'compress', ['-e', CODERS[k % 6], '-s', str(rng.choice([1, 8, 256]))] + (['--prepr', 'pp'] if k % 5 == 0 else []), q(500, 3000)))
    # several blocks, buffers of 64 KiB crossed
    multi = put(ck, 'tr-multi', bytes(rng.choice(b'abcdefghijklmnop') for _ in range(420000)))
    ran = put(ck, 'tr-random', bytes(rng.getrandbits(8) for _ in range(210000)))
    for i in (multi, ran):
        for e in 'BH':
            jobs.append((i, 'compress', ['-m', '1', '-e', e], q(60, 1000)))
        jobs.append((i, 'preprocess', ['--prepr', 'p', '-b', '100'], q(120, 1000)))
    files = [f for f in parallel(make, jobs) if f]
    work = []
    for prog, a, lens, desc in files:
        step = 80
        for x in range(0, len(lens), step):
            work.append((prog, a, lens[x:x + step], desc))
    rng.shuffle(work)

    def go(j):
        prog, a, lens, desc = j
        wd = ck.path('trd-%d' % ck.next_id())
        os.mkdir(wd)
        for attempt in (20, 100):
            r = ck.exec([tool, d + '/' + prog, a, wd, str(attempt)], 900, input='\n'.join(map(str, lens)).encode() + b'\n', stdout=subprocess.PIPE, env=ENV)
            rows = [l.split() for l in r.stdout.decode().splitlines()]
            hung = [int(x[0]) for x in rows if x[1] == 'hang']
            for x in rows:
                n = int(x[0])
                if x[1] == 'hang':
                    if attempt == 100:
                        ck.violation('truncation %s hang' % prog, '%s cut to %d bytes: no end within %d s' % (desc, n, attempt), {'kind': 'truncation', 'what': desc, 'length': n})
                elif x[1] == 'signal':
                    ck.violation('truncation %s signal %s' % (prog, x[2]), '%s cut to %d of %d bytes: killed by signal %s' % (desc, n, os.path.getsize(a), x[2]), {'kind': 'truncation', 'what': desc, 'length': n})
                elif x[1] == '0':
                    ck.violation('truncation %s accepted' % prog, '%s cut to %d of %d bytes is accepted' % (desc, n, os.path.getsize(a)), {'kind': 'truncation', 'what': desc, 'length': n})
                ck.case(sha(('%s %d' % (desc, n)).encode()), '%s cut to %d: exit %s' % (desc, n, x[1]))
            ck.count(prog + '_prefixes', len(rows))
            lens = hung
            if not hung:
                break
        shutil.rmtree(wd, ignore_errors=True)
    parallel(go, work)
    # the complete files are accepted (so that the exit codes above mean something)
    for prog, a, lens, desc in files:
        out = ck.path('tr-out')
        r = ck.run([d + '/' + prog, a, out])
        if r.rc != 0:
            ck.violation('truncation complete-rejected', '%s: %s' % (desc, describe_run(r)))
        ck.count('complete_files_accepted')

    crash_points(ck, d, rng, [i for i in ins if i.size > 100][:q(4, 30)] + [multi, ran])


def crash_points(ck, d, rng, ins):
    """The writing program is killed at each system call on its output; what it leaves is rejected."""
    strace = shutil.which('strace')
    if not strace or ck.run([strace, '-qq', '-o', '/dev/null', '-e', 'trace=write', '-e', 'inject=write:signal=KILL:when=1', '/bin/echo', 'x']).rc == 0:
        ck.notes.append('strace cannot stop programs here; no crash points')
        return
    calls = 'write,pwrite64,writev,lseek,close,ftruncate,fsync'
    jobs = []
    for k, i in enumerate(ins):
        for o in (['-m', '1', '-e', CODERS[k % 6]], ['-m', '1', '--prepr', 'p', '-e', 'H']):
            jobs.append(('compress', o, i))
        jobs.append(('preprocess', ['--prepr', 'p', '-b', '100'], i))

    def plan(j):
        prog, o, inp = j
        out, log = ck.path('cr-%d' % ck.next_id()), ck.path('cr-%d' % ck.next_id())
        with open(out, 'wb'):
            pass
        r = ck.run([strace, '-qq', '-f', '-o', log, '-P', out, '-e', 'trace=' + calls, d + '/' + prog] + o + [inp.path, out])
        t = (read(log) or b'').decode('latin1')
        full = read(out)
        rm(out, log)
        if r.rc != 0:
            return []
        c = {}
        for l in t.splitlines():
            m = re.match(r'(?:\d+ +)?(\w+)\(', l)
            if m:
                c[m.group(1)] = c.get(m.group(1), 0) + 1
        res = []
        for s, n in sorted(c.items()):
            ks = range(1, n + 1) if n <= 12 or ck.tier != 'quick' else sorted(set([1, 2, 3, n - 2, n - 1, n] + rng.sample(range(1, n + 1), 5)))
            res += [(prog, o, inp, full, s, k, n) for k in ks]
        return res

    def crash(j):
        prog, o, inp, full, s, k, n = j
        out = ck.path('cr-%d' % ck.next_id())
        with open(out, 'wb'):
            pass
        ck.run([strace, '-qq', '-f', '-o', '/dev/null', '-P', out, '-e', 'trace=' + s, '-e', 'inject=%s:signal=KILL:when=%d' % (s, k), d + '/' + prog] + o + [inp.path, out], timeout=60)
        left = read(out)
        name = '%s %s %s killed at %s %d of %d, %d of %d bytes left' % (prog, ' '.join(o), inp, s, k, n, len(left or b''), len(full))
        back = 'uncompress' if prog == 'compress' else 'postprocess'
        ck.case(sha(name.encode()), name)
        ck.count('crash_points')
        rep = {'kind': 'crash', 'name': name}
        if left is None or left == full:
            ck.count('crash_after_the_end')
        else:
            b = out + '.b'
            r = ck.run([d + '/' + back, out, b], timeout=60)
            if r.hang:
                ck.violation('crash %s hang' % back, name, rep)
            elif r.rc == 0:
                ck.violation('crash %s accepted' % back, name, rep)
            elif r.rc < 0:
                ck.violation('crash %s signal' % back, '%s: %s' % (name, describe_run(r)), rep)
            rm(b)
        rm(out)
    work = [x for l in parallel(plan, jobs) for x in l]
    parallel(crash, work)
    ck.log('%d crash points' % len(work))


def boundaries(data):
    """Positions around the starts of blocks and headers of an archive."""
    w = archive.Walk(data)
    w.u8()
    s = []
    while True:
        s.append(w.p)
        size = w.packed()
        if size == 0:
            break
        n = w.packed()
        archive.grammar(w)
        s.append(w.p)
        for _ in range(n):
            s.append(w.p)
            ln = w.u48()
            s.append(w.p)
            w.p += ln
    return [x + e for x in s for e in range(-2, 8)]


def P13(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('cli', 'rel'))
    d = ck.cli('rel')
    so = ck.tool('mpeak', shared=True)
    rng = random.Random('P13-%d' % ck.seed)

    def peak(cmd, timeout=300):
        f = ck.path('mp-%d' % ck.next_id())
        e = dict(ENV, LD_PRELOAD=so, MPEAK_OUT=f)
        r = ck.run(cmd, env=e, timeout=timeout)
        b = read(f)
        rm(f)
        if r.rc != 0 or not b:
            return None, r
        return int(b.split()[0]), r

    def make(kind, n):
        r = random.Random('%s-%d' % (kind, ck.seed))  # a longer input continues a shorter one
        if kind == 'random':
            return r.randbytes(n)
        if kind == 'zero':
            return b'\0' * n
        if kind == 'ab':
            return (b'ab' * (n // 2 + 1))[:n]
        if kind == 'text':
            words = [bytes(r.choice(b'etaoinshrdlu') for _ in range(r.randint(1, 9))) for _ in range(900)]
            out = bytearray()
            while len(out) < n:
                out += r.choice(words) + b' '
            return bytes(out[:n])
        if kind == 'runs':
            out = bytearray()
            while len(out) < n:
                out += bytes([r.getrandbits(8)]) * r.randint(1, 300)
            return bytes(out[:n])
        if kind == 'period':
            w = bytes(r.getrandbits(8) for _ in range(1000))
            return (w * (n // 1000 + 1))[:n]
        if kind.startswith('words'):  # replacing pairs leaves about a half, third, quarter...
            words = [bytes(r.sample(range(200), int(kind[5:]))) for _ in range(25)]
            return b''.join(r.choices(words, k=n // int(kind[5:]) + 1))[:n]
        if kind == 'mild':  # replacing pairs leaves more than two thirds
            words = [bytes(r.sample(range(200, 230), 3)) + bytes(r.choices(range(200), k=4)) for _ in range(4000)]
            return b''.join(r.choices(words, k=n // 7 + 1))[:n]
        if kind == 'sparse':
            out = bytearray(n)
            for _ in range(n // 40):
                out[r.randrange(n)] = r.getrandbits(8)
            return bytes(out)
        raise ValueError(kind)
    kinds = ['random', 'zero', 'ab', 'text', 'runs', 'period', 'sparse']
    jobs = []
    for mem in (1, 4) + ((12, 40) if ck.tier == 'thorough' else ()):
        for kind in kinds:
            for e in (CODERS if ck.tier == 'thorough' or mem == 4 else 'BH'):
                for prepr in (0, 1, 3):
                    if prepr and (e not in 'BH' or (ck.tier == 'quick' and mem == 4 and kind not in ('random', 'text', 'ab'))):
                        continue
                    blk = mem * 1000000 * (0.74 if prepr else 0.185)
                    jobs.append((mem, kind, e, prepr, (int(blk * 2.3), int(blk * (4.6 if ck.tier == 'quick' else 8.6)))))

    # many blocks: what is kept of each adds up
    for kind, e, prepr, k in (('text', 'B', 0, 24), ('random', 'H', 0, 24), ('runs', 'u', 0, 24), ('text', 'B', 1, 8), ('random', 'H', 2, 8)):
        blk = 1000000 * (0.74 if prepr else 0.185)
        jobs.insert(0, (1, kind, e, prepr, (int(blk * k), int(blk * k * 2.2))))
    # limits against which the fixed overhead is small, one block
    for mem, kind, prepr, e in ((30, 'random', 0, 'H'), (30, 'text', 0, 'B'), (30, 'text', 1, 'B'), (100, 'random', 1, 'H'),
                                (100, 'words2', 1, 'H'), (100, 'words3', 2, 'B'), (100, 'words4', 2, 'H'), (100, 'words4', 3, 'B'), (100, 'words5', 3, 'H'), (100, 'words8', 3, 'H'), (100, 'mild', 2, 'H')):
        jobs.insert(0, (mem, kind, e, prepr, (int(mem * 1e6 * (0.76 if prepr else 0.2)),)))

    def measure(j):
        mem, kind, e, prepr, n = j
        inp = ck.path('m-%d' % ck.next_id())
        with open(inp, 'wb') as f:
            f.write(make(kind, n))
        arc, out = inp + '.a', inp + '.o'
        o = ['-m', str(mem), '-e', e, '--bwt', rng.choice('da')] + (['--prepr', 'p' * prepr] if prepr else [])
        desc = '%s n=%d %s' % (kind, n, ' '.join(o))
        rep = {'kind': 'memory', 'input': kind, 'size': n, 'options': o}
        try:
            p, r = peak([d + '/compress'] + o + [inp, arc])
            if p is None:
                ck.violation('memory compress-failed', '%s: %s' % (desc, describe_run(r)), rep)
                return None
            u, r = peak([d + '/uncompress', arc, out])
            if u is None:
                ck.violation('memory uncompress-failed', '%s: %s' % (desc, describe_run(r)), rep)
        finally:
            rm(inp, arc, out)
        lim = mem * 1000000
        ck.max('compress_peak_permille_of_limit_m%d%s' % (mem, '_prepr' if prepr else ''), p * 1000 // lim)
        ck.max('uncompress_peak_permille_of_limit_m%d%s' % (mem, '_prepr' if prepr else ''), (u or 0) * 1000 // lim)
        if p > COMP_BOUND(lim, prepr):
            ck.violation('memory compress-limit', '%s: peak of %d bytes with a limit of %d' % (desc, p, lim), rep)
        if u is not None and u > DEC_BOUND(lim, prepr):
            ck.violation('memory uncompress-limit', '%s: peak of %d bytes, compressed with a limit of %d' % (desc, u, lim), rep)
        ck.case(sha(desc.encode()), '%s: peaks %d and %s' % (desc, p, u))
        return p, u

    def job(j):
        mem, kind, e, prepr, sizes = j
        res = []
        for n in sizes:
            res.append(measure((mem, kind, e, prepr, n)))
            if res[-1] is None:
                return
        if len(res) == 2 and None not in res[0] and None not in res[1]:
            # more blocks of the same kind do not need more memory
            for k, w in ((0, 'compress'), (1, 'uncompress')):
                grow = res[1][k] - res[0][k]
                ck.max(w + '_growth', max(0, grow))
                slack = 150000 + 0.04 * mem * 1000000
                if grow > slack:
                    # a block that happens to need more is no growth: twice the input must need still more
                    third = measure((mem, kind, e, prepr, 2 * sizes[1]))
                    if third is not None and third[k] is not None and third[k] - res[1][k] > slack:
                        ck.violation('memory %s-growth' % w, '%s m=%d e=%s prepr=%d: %d bytes of heap for %d bytes of input, %d for %d, %d for twice as many' % (kind, mem, e, prepr, res[0][k], sizes[0], res[1][k], sizes[1], third[k]), {'kind': 'memory', 'input': kind, 'options': [mem, e, prepr]})
    parallel(job, jobs)


# measured on the pinned tree: compressing 1.11 limit + 0.4 MB (1.23 limit + 1.9 MB with
# preprocessing), decompressing 1.31 limit + 0.5 MB (1.83 limit)
def COMP_BOUND(lim, prepr):
    return lim * 1.32 + 3000000 if prepr else lim * 1.2 + 1200000


def DEC_BOUND(lim, prepr):
    return lim * 2.1 + 1200000 if prepr else lim * 1.45 + 1200000


def P14(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('pairs', 'rel'), ('pairs', 'dbg'), ('cli', 'rel'))
    ck.run_harness('pairs', 'rel', q(2500, 40000), '', 20000)
    ck.run_harness('pairs', 'dbg', q(900, 15000), '', 6000, seed=ck.seed + 1000)
    ck.run_harness('pairs', 'rel', q(726, 6558), 'exh')
    ck.run_harness('pairs', 'rel', q(120, 2000), '', 300000, seed=ck.seed + 2000, limit=200)
    ck.run_harness('pairs', 'rel', q(1500, 25000), 'many', 120000, seed=ck.seed + 3000)
    ck.run_harness('pairs', 'dbg', q(80, 2000), 'many', 50000, seed=ck.seed + 4000)
    ck.run_harness('pairs', 'rel', q(160, 3000), 'max', 600000, seed=ck.seed + 6000, limit=120, chunk=2)
    ck.run_harness('pairs', 'dbg', q(32, 600), 'max', 300000, seed=ck.seed + 7000, limit=200, chunk=2)
    ck.run_harness('pairs', 'rel', q(40, 600), 'many', 1200000, seed=ck.seed + 5000, limit=200, chunk=1)
    ck.run_harness('pairs', 'rel', q(40, 800), 'front', 1000000, seed=ck.seed + 8000, limit=200, chunk=1)
    ck.run_harness('pairs', 'rel', q(16, 300), 'front', 6000000, seed=ck.seed + 9000, limit=200, chunk=1)
    ck.run_harness('pairs', 'dbg', q(300, 6000), 'api', 1000)
    ck.run_harness('pairs', 'rel', q(600, 20000), 'api', 1000, seed=ck.seed + 1000)
    if None in ck.harn.values():
        d = ck.cli('rel')
        rng = random.Random(ck.seed)
        parallel(lambda i: cli_prepost(ck, d, d, i, ['--prepr', 'p' * rng.randint(1, 4)], 'programs'), gen_inputs(ck, 300, 50000, 'fb'))


def tree(d):
    r = {}
    for root, ds, fs in os.walk(d):
        for f in fs + ds:
            p = os.path.join(root, f)
            st = os.lstat(p)
            if stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as fh:
                    r[os.path.relpath(p, d)] = ('f', sha(fh.read()), st.st_mode, st.st_size)
            else:
                r[os.path.relpath(p, d)] = ('o', st.st_mode)
    return r


def P15(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('cli', 'dbg'))
    d = ck.cli('dbg')
    progs = ('compress', 'uncompress', 'preprocess', 'postprocess')
    text = b'the quick brown fox jumps over the lazy dog\n' * 40

    def fresh(prog):
        s = ck.path('ws-%d' % ck.next_id())
        os.mkdir(s)
        with open(s + '/plain', 'wb') as f:
            f.write(text)
        ck.run([d + '/compress', s + '/plain', s + '/arc'])
        ck.run([d + '/preprocess', '--prepr', 'p', s + '/plain', s + '/pre'])
        with open(s + '/old', 'wb') as f:
            f.write(b'previous content of the output file ' * 300)
        with open(s + '/bystander', 'wb') as f:
            f.write(b'do not touch')
        src = {'compress': 'plain', 'preprocess': 'plain', 'uncompress': 'arc', 'postprocess': 'pre'}[prog]
        return s, src
    bad = {p: [['--nonsense'], ['-Z'], ['-v', 'abc'], ['-v', '1.5'], ['--verb='], ['--nonsense=3'], ['-v']] for p in progs}
    bad['compress'] += [['-e', x] for x in ('x', 'h', 'Z', 'BB', '1', 'U', 'n', '')] + [['--bwt', x] for x in ('x', 'D', 'S', 'A', 'ds', '1', 'b', '')]
    bad['compress'] += [['-s', x] for x in ('0', '257', '-1', '1000000', 'x', '1x', '3.5', '4294967297', '')] + [['-m', x] for x in ('x', '10x', '1.5', '')]
    bad['compress'] += [['--prepr', x] for x in ('x', 'px', 'xp', 'P', 'ppP', 'p p', 'c', 'pcp', '-')] + [['--enc=q'], ['--starts=0'], ['--starts=300'], ['--mem=abc'], ['-b', '10'], ['--escape', '1']]
    bad['preprocess'] += [['--prepr', x] for x in ('x', 'px', 'xp', 'P', 'q', 'pcp')] + [['-b', x] for x in ('x', '1x', '2.5', '')] + [['--escape', 'maybe'], ['-m', '10'], ['-e', 'B'], ['-s', '3']]
    bad['uncompress'] += [['-m', '10'], ['-e', 'B'], ['-s', '3'], ['--prepr', 'p'], ['-b', '1']]
    bad['postprocess'] += [['-m', '10'], ['-e', 'B'], ['-s', '3'], ['--prepr', 'p'], ['-b', '1']]
    good = {'compress': [['-e', e] for e in CODERS] + [['--enc', e] for e in CODERS] + [['--bwt', x] for x in 'dsa'] +
            [['-s', str(x)] for x in ((1, 2, 3, 7, 8, 100, 254, 255, 256) if ck.tier == 'quick' else range(1, 257))] +
            [['--prepr', 'p' * k] for k in (1, 2, 3, 8, 20)] + [['-m', x] for x in ('0', '1', '3', '100', '2000')] +
            [['-v', x] for x in ('0', '1', '2', '3', '5')] + [['-s', '16', '-e', 'm', '-m', '7', '--prepr', 'pp', '--bwt', 's', '-v', '2'], ['--starts=12', '--enc=M', '--mem=4'], []],
            'preprocess': [['--prepr', 'p' * k] for k in (1, 2, 5, 12)] + [['-b', x] for x in ('0', '1', '7', '100000')] + [['--escape', x] for x in '01'] + [['-v', x] for x in '0123'] + [[]],
            'uncompress': [['-v', x] for x in ('0', '1', '2', '3', '5')] + [[]], 'postprocess': [['-v', x] for x in '0123'] + [[]]}
    jobs = []
    for p in progs:
        for o in bad[p]:
            for place in ('new', 'old', 'std'):
                jobs.append(('bad', p, o, place))
        for o in good[p]:
            for place in ('new', 'old', 'std', 'named', 'swapped'):
                jobs.append(('good', p, o, place))
        for place in ('new', 'old'):
            jobs.append(('missing', p, [], place))
            jobs.append(('extra', p, [], place))
        for place in ('itself', 'symlink', 'hardlink', 'stdin', 'path'):
            jobs.append(('same', p, [], place))
        jobs.append(('help', p, ['--help'], 'old'))
        jobs.append(('help', p, ['-h'], 'old'))

    def job(j):
        kind, prog, o, place = j
        s, src = fresh(prog)
        name = '%s %s %s %s' % (kind, prog, ' '.join(o) or '(no options)', place)
        rep = {'kind': 'options', 'program': prog, 'options': o, 'place': place}
        try:
            before = tree(s)
            out = 'old' if place == 'old' else 'new'
            files = [src, out]
            if place == 'std':
                files = None
            if kind == 'missing':
                files = ['nothing-here', out]
            if kind == 'extra':
                files = [src, out, 'third']
            if kind == 'help':
                files = [src, 'old']
            exe = d + '/' + prog
            if kind == 'same':
                # the input under another name is the output
                files = [src, src]
                if place == 'symlink':
                    os.symlink(src, s + '/new')
                    files = [src, 'new']
                elif place == 'hardlink':
                    os.link(s + '/' + src, s + '/new')
                    files = ['new', src]
                elif place == 'path':
                    files = [src, '../' + os.path.basename(s) + '/./' + src]
                before = tree(s)
            if kind == 'same' and place == 'stdin':
                with open(s + '/' + src, 'rb') as fi:
                    r = ck.run([exe, '-i', '--output-file', src], stdin=fi, cwd=s)
            elif files is None:
                with open(s + '/' + src, 'rb') as fi:
                    r = ck.run([exe] + o + ['-i', '-c'], stdin=fi, cwd=s)
                produced = r.out
            elif place == 'named':
                r = ck.run([exe] + o + ['--input-file', src, '--output-file', out], cwd=s)
            elif place == 'swapped':
                r = ck.run([exe] + files + o, cwd=s)
            else:
                r = ck.run([exe] + o + files, cwd=s)
            after = tree(s)
            ck.case(sha(name.encode()), name)
            ck.count(kind + '_invocations')
            if r.hang:
                ck.violation('options hang', name, rep)
                return
            if kind == 'help':
                if after != before:
                    ck.violation('options help-touches-files', name, rep)
                return
            if kind in ('bad', 'missing', 'extra', 'same'):
                if r.rc == 0:
                    ck.violation('options accepted', '%s: exit status 0' % name, rep)
                elif r.rc < 0:
                    ck.violation('options crash', '%s: %s' % (name, describe_run(r)), rep)
                if after != before:
                    ch = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
                    ck.violation('options files-touched', '%s changed %s' % (name, ch), rep)
                if place == 'std' and r.out and kind == 'bad':
                    ck.violation('options output-in-spite', '%s wrote %d bytes' % (name, len(r.out)), rep)
                return
            if r.rc != 0:
                ck.violation('options rejected', '%s: %s' % (name, describe_run(r)), rep)
                return
            ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            want = [] if files is None else [out]
            if ch != want:
                ck.violation('options other-files', '%s changed %s instead of %s' % (name, ch, want), rep)
                return
            data = produced if files is None else read(s + '/' + out)
            # the result is right and replaced everything that was there
            if prog in ('compress', 'preprocess'):
                with open(s + '/chk', 'wb') as f:
                    f.write(data)
                r = ck.run([d + '/' + ('uncompress' if prog == 'compress' else 'postprocess'), s + '/chk', s + '/chk.o'])
                try:
                    (archive.walk if prog == 'compress' else archive.walk_preprocessed)(data)
                except archive.Bad as e:
                    ck.violation('options output-not-replaced', '%s: %s' % (name, e), rep)
                data = read(s + '/chk.o') if r.rc == 0 else None
            if data != text:
                ck.violation('options wrong-output', '%s: %s' % (name, first_diff(text, data)), rep)
        finally:
            shutil.rmtree(s, ignore_errors=True)
    parallel(job, jobs)


def P16(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('cli', 'rel'), ('cli', 'rel', REF))
    cur, ref = ck.cli('rel'), ck.cli('rel', REF)
    cli_cases(ck, cur, ref, q(160, 2500), 300000, 'current-to-pinned', None, seed_off=1)
    cli_cases(ck, ref, cur, q(160, 2500), 300000, 'pinned-to-current', None, seed_off=2)
    cli_cases(ck, cur, ref, q(400, 6000), 3000, 'current-to-pinned-small', None, seed_off=3)
    cli_cases(ck, ref, cur, q(400, 6000), 3000, 'pinned-to-current-small', None, seed_off=4)
    rng = random.Random('P16-%d' % ck.seed)
    jobs = []
    for i in directed_inputs(ck, big=ck.tier == 'thorough'):
        for e in ('BHm' if i.size > 1000000 else CODERS):
            o = ['-e', e, '-m', rng.choice(['1', '30']), '-s', rng.choice(['1', '8', '256'])]
            jobs.append((i, o, cur, ref, 'current-to-pinned'))
            jobs.append((i, o, ref, cur, 'pinned-to-current'))
        if i.size < 400000:
            o = ['--prepr', 'pp', '-m', '1']
            jobs.append((i, o, cur, ref, 'current-to-pinned'))
            jobs.append((i, o, ref, cur, 'pinned-to-current'))
    jobs.sort(key=lambda j: -j[0].size)
    parallel(lambda j: cli_roundtrip(ck, j[2], j[3], j[0], j[1], j[4]), jobs)
    jobs = []
    for i in gen_inputs(ck, q(200, 3000), 60000, 'fmt-pp', 5):
        o = ['--prepr', 'p' * rng.randint(0, 5), '-b', str(rng.choice([1, 4, 100]))]
        jobs.append((i, o, cur, ref, 'current-to-pinned'))
        jobs.append((i, o, ref, cur, 'pinned-to-current'))
    parallel(lambda j: cli_prepost(ck, j[2], j[3], j[0], j[1], j[4]), jobs)


# how much noise may grow: little with the default coder, a constant factor with
# the ones whose models adapt from bit to bit only
NOISE = {'B': 1.04, 'b': 1.08, 'u': 1.08, 'H': 1.16, 'M': 1.7, 'm': 2.5}


def P17(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('rangecoder', 'rel'), ('cli', 'rel'), ('cli', 'rel', REF))
    cur, ref = ck.cli('rel'), ck.cli('rel', REF)
    ck.run_harness('rangecoder', 'rel', q(4000, 60000), '', 60000)
    rng = random.Random('P17-%d' % ck.seed)
    tot = {}

    def size(dir_, o, inp):
        a = ck.path('e-%d' % ck.next_id())
        r = ck.run([dir_ + '/compress'] + o + [inp.path, a])
        n = os.path.getsize(a) if r.rc == 0 and os.path.exists(a) else None
        rm(a)
        return n, r

    # absolute bounds
    n = q(1000000, 6000000)
    noise = put(ck, 'noise', rng.getrandbits(8 * n).to_bytes(n, 'little'))
    zeros = put(ck, 'zeros', b'\0' * n)
    per = put(ck, 'period', (bytes(rng.getrandbits(8) for _ in range(777)) * (n // 777 + 1))[:n])
    two = put(ck, 'abab', b'ab' * (n // 2))
    snoise = put(ck, 'small-noise', rng.getrandbits(8 * 300).to_bytes(300, 'little'))
    ab = []
    for e in CODERS:
        for m in ('1', '100'):
            ab.append((noise, ['-e', e, '-m', m], n * NOISE[e] + 2000, 'incompressible'))
            for i in (zeros, per, two):
                ab.append((i, ['-e', e, '-m', m], (n / 60 if i is per else n / 200) + 3000, 'repetitive'))
        ab.append((snoise, ['-e', e], 300 * NOISE[e] + 400, 'incompressible'))

    def absj(j):
        inp, o, bound, what = j
        s, r = size(cur, o, inp)
        if s is None:
            ck.violation('size compress-failed', '%s %s: %s' % (inp, o, describe_run(r)))
            return
        ck.case(sha(('%s %s' % (inp, o)).encode()), '%s %s -> %d' % (inp, ' '.join(o), s))
        ck.max('permille_%s_%s' % (what, inp.fam), s * 1000 // max(1, inp.size))
        if s > bound:
            ck.violation('size %s' % what, '%s %s takes %d bytes, more than %d' % (inp, ' '.join(o), s, bound), {'kind': 'size', 'input': str(inp), 'options': o})
    parallel(absj, ab)
    # against the pinned version
    ins = gen_inputs(ck, q(260, 4000), 200000, 'eff', 9) + [i for i in directed_inputs(ck) if i.size > 2]
    jobs = [(i, opts(rng, None, (1, 2, 20))) for i in ins]

    def cmp(j):
        inp, o = j
        a, r = size(cur, o, inp)
        b, r2 = size(ref, o, inp)
        if b is None:
            return
        if a is None:
            ck.violation('size compress-failed', '%s %s: %s' % (inp, o, describe_run(r)))
            return
        desc = '%s %s' % (inp, ' '.join(o))
        ck.case(sha(desc.encode()), '%s: %d, pinned %d' % (desc, a, b))
        ck.count('compared_with_pinned')
        with ck.lock:
            t = tot.setdefault(o[1], [0, 0])
            t[0] += a
            t[1] += b
        if a > b * 1.02 + 64:
            ck.violation('size larger-than-pinned', '%s: %d bytes, pinned version %d' % (desc, a, b), {'kind': 'size', 'input': str(inp), 'options': o})
    parallel(cmp, jobs)
    for e, (a, b) in sorted(tot.items()):
        ck.max('total_current_' + e, a)
        ck.max('total_pinned_' + e, b)
        if a > b * 1.005 + 500:
            ck.violation('size total-larger-than-pinned', 'coder %s: %d bytes in total, pinned version %d' % (e, a, b), {'kind': 'size', 'coder': e})
    # preprocessed sizes
    pj = [(i, ['--prepr', 'p' * rng.randint(1, 4), '-b', str(rng.choice([10, 100]))]) for i in ins if i.size < 300000]

    def pp(j):
        inp, o = j
        s = []
        for dd in (cur, ref):
            a = ck.path('e-%d' % ck.next_id())
            r = ck.run([dd + '/preprocess'] + o + [inp.path, a])
            s.append(os.path.getsize(a) if r.rc == 0 else None)
            rm(a)
        if None in s:
            return
        ck.case(sha(('pre %s %s' % (inp, o)).encode()))
        ck.count('preprocessed_compared_with_pinned')
        if s[0] > s[1] * 1.02 + 64:
            ck.violation('size preprocessed-larger-than-pinned', '%s %s: %d bytes, pinned version %d' % (inp, ' '.join(o), s[0], s[1]), {'kind': 'size', 'input': str(inp), 'options': o})
    parallel(pp, pj)


def hard_inputs(ck, n, rng):
    """Contents that are hard on sorters, n bytes each."""
    def sturm(c, x=b'a', y=b'b'):
        while len(x) < n:
            x, y = x * c + y, x
        return x[:n]

    def runs(start, step):
        s = bytearray()
        k = start
        while len(s) < n:
            s += b'a' * max(1, k) + b'b'
            k += step
            if k < 1:
                k = start
        return bytes(s[:n])
    blk = bytes(rng.getrandbits(8) for _ in range(n // 4))
    rnd = rng.getrandbits(8 * n).to_bytes(n, 'little')
    near = bytearray((bytes(rng.getrandbits(8) & 3 for _ in range(500)) * (n // 500 + 1))[:n])
    for _ in range(60):
        near[rng.randrange(n)] ^= 1
    fib = bytearray(sturm(1))
    for _ in range(9):
        fib[rng.randrange(n)] ^= 3
    tm = bytearray(b'a')
    while len(tm) < n:
        tm += bytes(195 - c for c in tm)
    desc = bytearray()
    for c in range(255, -1, -1):
        desc += bytes([c]) * (n // 256 + 1)
    f = {'zeros': b'\0' * n, 'ones': b'\xff' * n, 'abab': (b'ab' * n)[:n], 'run-then-b': b'a' * (n - 1) + b'b', 'b-then-run': b'b' + b'a' * (n - 1),
         'run-b-run': b'a' * (n // 2) + b'b' + b'a' * (n - n // 2 - 1), 'four-copies': (blk * 5)[:n], 'fibonacci': sturm(1), 'fibonacci-changed': bytes(fib),
         'sturmian-2': sturm(2), 'sturmian-7': sturm(7, b'ab', b'ba'), 'sturmian-60': sturm(60), 'thue-morse': bytes(tm[:n]), 'random': rnd,
         'random-bits': bytes(97 + (c & 1) for c in rnd), 'random-rare': bytes(97 + (c < 2) for c in rnd), 'growing-runs': runs(1, 1), 'shrinking-runs': runs(int((2 * n) ** .5), -1),
         'equal-runs': runs(997, 0), 'period-1000': (rnd[:1000] * (n // 1000 + 1))[:n], 'period-changed': bytes(near), 'all-bytes-cycle': (bytes(range(256)) * (n // 256 + 1))[:n],
         'all-bytes-down': (bytes(range(255, -1, -1)) * (n // 256 + 1))[:n], 'descending-runs': bytes(desc[:n]), 'ascending-runs': bytes(desc[:n][::-1]),
         'palindrome': rnd[:n // 2] + rnd[:n // 2][::-1], 'text-doubling': None}
    t = bytearray(rnd[:64])
    while len(t) < n:
        t += t[:len(t) - rng.randint(0, 3)] + b'%d' % rng.getrandbits(8)
    f['text-doubling'] = bytes(t[:n])
    return [put(ck, 'hard-%s-%d' % (k, n), f[k]) for k in sorted(f)]


def P18(ck):
    q = lambda a, b: scale(ck, a, b)
    ck.prebuild(('cli', 'steps'), ('cli', 'steps', REF))
    cur, ref = ck.cli('steps'), ck.cli('steps', REF)
    rng = random.Random('P18-%d' % ck.seed)

    def steps(d, prog, args):
        p = ck.path('st-%d' % ck.next_id())
        r = ck.run([d + '/' + prog] + args, env=dict(ENV, VERIF_STEPS=p), timeout=100)
        try:
            v = int(read(p))
        except (OSError, ValueError):
            v = None
        rm(p)
        return v, r

    jobs = []
    sizes = [(q(700000, 2500000), 1), (60000, 0)]
    for n, level in sizes:
        for i in hard_inputs(ck, n, rng):
            pick = [['--bwt', 'd', '-e', rng.choice(CODERS)], ['--bwt', 's', '-e', rng.choice(CODERS)]]
            pick.append(['--prepr', 'p' * rng.randint(1, 4), '-e', rng.choice(CODERS), '-s', str(rng.choice([1, 8, 256]))])
            for o in pick:
                jobs.append((i, o + ['-m', rng.choice(['1', '3', '100', '100'])]))
    for i in gen_inputs(ck, q(120, 2500), 200000, 'steps', 11):
        jobs.append((i, opts(rng, None, (1, 2, 20))))
    rng.shuffle(jobs)

    def judge(what, desc, v, r, w, rw, bound):
        rep = {'kind': 'steps', 'case': desc, 'what': what}
        if w is None or rw.rc != 0:
            return
        if r.rc is None:
            ck.violation('steps %s-does-not-end' % what, '%s: %s; the pinned version took %d steps' % (desc, describe_run(r), w), rep)
            return
        if r.rc != 0 or v is None:
            ck.violation('steps %s-failed' % what, '%s: %s' % (desc, describe_run(r)), rep)
            return
        ck.count('basic_blocks_counted', v)
        ck.count(what + '_runs_measured')
        if v > bound:
            ck.violation('steps %s-not-linear' % what, '%s: %d steps, bound %d' % (desc, v, bound), rep)
        if v > 4 * w + 5000000:
            ck.violation('steps %s-slower-than-pinned' % what, '%s: %d steps, pinned version %d' % (desc, v, w), rep)

    def job(j):
        inp, o = j
        n = inp.size
        desc = '%s %s' % (inp, ' '.join(o))
        rounds = max([len(x) for k, x in zip(o, o[1:]) if k == '--prepr'] + [0])
        mb = min([int(x) for k, x in zip(o, o[1:]) if k == '-m'] + [1000])
        blocks = n // int(max(1, mb) * 150000) + 1
        arcs = []
        st = []
        for d in (cur, ref):
            a = ck.path('sa-%d' % ck.next_id())
            arcs.append(a)
            st.append(steps(d, 'compress', o + [inp.path, a]))
        (v, r), (w, rw) = st
        judge('compress', desc, v, r, w, rw, 6000 * n + 40000000 + blocks * (20000000 + rounds * 40000000))
        if v and n:
            ck.max('compress_steps_per_byte' if not rounds and n > 50000 else 'compress_steps_per_byte_small_or_rounds', v // n)
        if r.rc == 0 and rw.rc == 0:
            st = [steps(d, 'uncompress', [a, '/dev/null']) for d, a in zip((cur, ref), arcs)]
            (v, r), (w, rw) = st
            judge('uncompress', desc, v, r, w, rw, 6000 * n + 40000000 + blocks * 20000000)
            if v and n > 50000:
                ck.max('uncompress_steps_per_byte', v // n)
        ck.case(sha(desc.encode()), desc)
        for a in arcs:
            rm(a)
        if rounds:
            po = ['--prepr', 'p' * rounds, '-b', '100' if n < 200000 else '1000']
            pb = n // 100000 + 1
            outs = [ck.path('sp-%d' % ck.next_id()) for _ in (0, 1)]
            st = [steps(d, 'preprocess', po + [inp.path, a]) for d, a in zip((cur, ref), outs)]
            judge('preprocess', desc, st[0][0], st[0][1], st[1][0], st[1][1], 6000 * n + 40000000 + pb * (3000000 + rounds * 40000000))
            if st[0][1].rc == 0 and st[1][1].rc == 0:
                st = [steps(d, 'postprocess', [a, '/dev/null']) for d, a in zip((cur, ref), outs)]
                judge('postprocess', desc, st[0][0], st[0][1], st[1][0], st[1][1], 6000 * n + 40000000 + pb * 5000000)
            for a in outs:
                rm(a)
    parallel(job, jobs)


RULES = {
    'P03': 'distinct blocks (content, starting positions) of more than one byte whose transform was compared with the definition',
    'P05': 'distinct (bits, probabilities) or section sequences coded and decoded while the event log was compared',
    'P06': 'distinct frequency vectors with more than one symbol whose code was judged',
    'P07': 'distinct operand lists of integer and run-length primitives',
    'P08': 'distinct operation histories over a stream',
    'P11': 'distinct (program, options, input, failing operation) combinations in which the failure was delivered',
    'P12': 'distinct (archive, length) prefixes given to a decoding program',
    'P13': 'distinct (input kind, size, options) runs whose heap peak was measured',
    'P14': 'distinct blocks preprocessed with the grammar judged after every round',
    'P15': 'distinct command lines',
    'P04': 'distinct (input, options, way of running) triples compared with the plain run',
    'P18': 'distinct (input, options) pairs whose executed basic blocks were counted',
    'P17': 'distinct (input, options) pairs whose archive size was judged',
}
ASSUME = {
    'P05': ['the interfaces of the range coder, wavelet tree and models are those of the pinned tree, otherwise only the programs are watched'],
    'P09': ['the archive layout is the one of the pinned tree (lib/archive.py reads it independently)'],
    'P10': ['misaligned accesses through casts are accepted as on x86-64 (UBSan alignment is off)'],
    'P11': ['failures are injected at system calls on the input and output files and at memory allocations'],
    'P13': ['heap memory is what the limit is about; code, stack and libc buffers are not counted'],
    'P16': ['/verif/ref is the format the archives have to keep'],
    'P18': ['work is counted in basic blocks of the code of the repository compiled at -O1; memcpy, memmove and memset count by length, other library functions not'],
    'P17': ['/verif/ref is the compression level to hold'],
}
