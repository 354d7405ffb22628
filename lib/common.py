"""Workload helpers shared by the checks."""
import os, random, subprocess, threading
from vlib import *

CODERS = 'BbumMH'


def gentool(ck):
    exe = ck.path('gentool')
    if not os.path.exists(exe):
        subprocess.run(['g++', '-O1', '-w', '-std=c++11', '-I' + os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness', 'gentool.cpp'), '-o', exe], check=True, env=ENV)
    return exe


class Input:
    def __init__(self, path, fam, size, h):
        self.path, self.fam, self.size, self.h = path, fam, size, h

    def data(self):
        with open(self.path, 'rb') as f:
            return f.read()

    def __str__(self):
        return '%s n=%d h=%x' % (self.fam, self.size, self.h)


def gen_inputs(ck, n, maxlen, tag='g', seed_off=0):
    exe = gentool(ck)
    d = ck.mkdir('in-' + tag)
    step = max(1, (n + 7) // 8)

    def part(a):
        r = subprocess.run([exe, str(ck.seed + seed_off), str(a), str(min(n, a + step)), str(maxlen), d], stdout=subprocess.PIPE, check=True, env=ENV)
        return [l.split() for l in r.stdout.decode().splitlines()]
    res = []
    for rows in parallel(part, range(0, n, step)):
        for i, fam, size, h in rows:
            res.append(Input(os.path.join(d, i), fam, int(size), int(h)))
    return res


def put(ck, name, data):
    p = ck.path(name)
    with open(p, 'wb') as f:
        f.write(data)
    return Input(p, name, len(data), sha(data))


def opts(rng, prepr=None, mems=(1, 1, 2, 10, 100)):
    o = ['-e', rng.choice(CODERS), '-m', str(rng.choice(mems)), '-s', str(rng.choice([1, 2, 3, 8, 8, 16, 100, 255, 256])), '--bwt', rng.choice('dsa')]
    if prepr is None:
        prepr = rng.random() < 0.25
    if prepr:
        o += ['--prepr', 'p' * rng.randint(1, 4)]
    return o


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def rm(*ps):
    for p in ps:
        try:
            os.unlink(p)
        except FileNotFoundError:
            pass


def describe_run(r):
    if r.hang:
        return 'does not end'
    return 'rc=%d %s' % (r.rc, r.text().strip()[-200:])


def first_diff(a, b):
    if a is None or b is None:
        return 'missing file'
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return 'lengths %d and %d' % (len(a), len(b))
    lo = 0
    step = n
    # binary search for the first difference
    hi = n
    while hi - lo > 1:
        m = (lo + hi) // 2
        if a[:m] == b[:m]:
            lo = m
        else:
            hi = m
    return 'lengths %d and %d, first difference at %d' % (len(a), len(b), lo)


def cli_roundtrip(ck, cdir, udir, inp, o, tag, how=None, timeout=60):
    """compress with the programs in cdir, uncompress with those in udir;
    returns the archive or None. how chooses files or standard streams."""
    how = how or 'ff'
    base = ck.path('rt-%d-%d' % (threading.get_ident(), ck.next_id()))
    arc, out = base + '.a', base + '.o'
    desc = '%s %s %s' % (tag, inp, ' '.join(o))
    rep = {'kind': 'cli-roundtrip', 'input': str(inp), 'options': o, 'how': how}
    try:
        if how[0] == 'f':
            r = ck.run([cdir + '/compress'] + o + [inp.path, arc], timeout=timeout)
        else:
            with open(inp.path, 'rb') as fi, open(arc, 'wb') as fo:
                r = ck.run([cdir + '/compress'] + o + ['-i', '-c'], stdin=fi, stdout=fo, timeout=timeout)
        if r.rc != 0:
            ck.violation(tag + ' compress-failed', '%s: %s' % (desc, describe_run(r)), rep)
            return None
        if how[1] == 'f':
            r = ck.run([udir + '/uncompress', arc, out], timeout=timeout)
        else:
            with open(arc, 'rb') as fi, open(out, 'wb') as fo:
                r = ck.run([udir + '/uncompress', '-i', '-c'], stdin=fi, stdout=fo, timeout=timeout)
        if r.rc != 0:
            ck.violation(tag + ' uncompress-failed', '%s: %s' % (desc, describe_run(r)), rep)
            return None
        got, want = read(out), inp.data()
        if got != want:
            ck.violation(tag + ' output-differs', '%s: %s' % (desc, first_diff(want, got)), rep)
            return None
        ck.case(sha(desc.encode()) if inp.size > 1 else None, desc)
        ck.count('cli_roundtrips')
        ck.count('cli_bytes', inp.size)
        return read(arc)
    finally:
        rm(arc, out)


def cli_prepost(ck, pdir, qdir, inp, o, tag, how='ff'):
    base = ck.path('pp-%d-%d' % (threading.get_ident(), ck.next_id()))
    arc, out = base + '.a', base + '.o'
    desc = '%s %s %s' % (tag, inp, ' '.join(o))
    rep = {'kind': 'cli-preprocess', 'input': str(inp), 'options': o, 'how': how}
    try:
        if how[0] == 'f':
            r = ck.run([pdir + '/preprocess'] + o + [inp.path, arc])
        else:
            with open(inp.path, 'rb') as fi, open(arc, 'wb') as fo:
                r = ck.run([pdir + '/preprocess'] + o + ['-i', '-c'], stdin=fi, stdout=fo)
        if r.rc != 0:
            ck.violation(tag + ' preprocess-failed', '%s: %s' % (desc, describe_run(r)), rep)
            return None
        if how[1] == 'f':
            r = ck.run([qdir + '/postprocess', arc, out])
        else:
            with open(arc, 'rb') as fi, open(out, 'wb') as fo:
                r = ck.run([qdir + '/postprocess', '-i', '-c'], stdin=fi, stdout=fo)
        if r.rc != 0:
            ck.violation(tag + ' postprocess-failed', '%s: %s' % (desc, describe_run(r)), rep)
            return None
        got, want = read(out), inp.data()
        if got != want:
            ck.violation(tag + ' output-differs', '%s: %s' % (desc, first_diff(want, got)), rep)
            return None
        ck.case(sha(desc.encode()) if inp.size > 1 else None, desc)
        ck.count('prepost_roundtrips')
        return read(arc)
    finally:
        rm(arc, out)


def slow_feed(ck, cmd, data, rng, env=None, timeout=240, cwd=None):
    """Runs cmd with its standard input fed in small irregular pieces through a pipe."""
    p = ck.popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, cwd=cwd)
    out, err = [], []
    t1 = threading.Thread(target=lambda: out.append(p.stdout.read()))
    t2 = threading.Thread(target=lambda: err.append(p.stderr.read()))
    t1.start(); t2.start()
    late = []
    timer = threading.Timer(timeout, lambda: (late.append(1), kill(p)))
    timer.daemon = True
    timer.start()
    try:
        k = 0
        while k < len(data):
            n = rng.choice([1, 1, 2, 3, 7, 100, 4095, 4096, 4097, 65535, 65536, 65537])
            piece = data[k:k + min(n, 65536)]
            try:
                w = os.write(p.stdin.fileno(), piece)   # less than the piece, if a signal comes in between
            except BrokenPipeError:
                break
            if w < len(piece):
                ck.count('pieces_cut_by_signals')
            k += w
        try:
            p.stdin.close()
        except BrokenPipeError:
            pass
        t1.join(); t2.join()
        p.wait()
    finally:
        timer.cancel()
        ck.procs.discard(p)
    if ck.stopped:
        raise Stop()
    return Res(None if late else p.returncode, out[0] if out else b'', err[0] if err else b'')


def directed_inputs(ck, big=True):
    """Inputs aimed at the constants of the code."""
    rng = random.Random('directed-%d' % ck.seed)
    r = []
    r.append(put(ck, 'empty', b''))
    for n in (1, 2, 3, 255, 256, 257, 258):
        r.append(put(ck, 'run-%d' % n, b'a' * n))
        r.append(put(ck, 'rnd-%d' % n, bytes(rng.getrandbits(8) for _ in range(n))))
    r.append(put(ck, 'all-bytes', bytes(range(256))))
    # as many sections as possible: each byte value 10000 times or more
    blk = bytearray()
    for c in range(256):
        blk += bytes([c]) * (10000 + rng.randint(0, 40))
    arr = bytes(blk)
    r.append(put(ck, 'sections-256-runs', arr))
    if big:
        l = list(arr)
        rng.shuffle(l)
        r.append(put(ck, 'sections-256-shuffled', bytes(l)))
    # 255 sections
    r.append(put(ck, 'sections-255', bytes(b''.join(bytes([c]) * 10000 for c in range(255)))))
    # just under / at / over one section
    for n in (9999, 10000, 10001, 19999, 20000, 20001):
        r.append(put(ck, 'section-%d' % n, b'x' * (n // 2) + b'y' * (n - n // 2)))
    # block boundary of -m 1 (185000 bytes) and of 64K buffers
    for n in (184999, 185000, 185001, 370000, 65535, 65536, 65537, 131072):
        r.append(put(ck, 'boundary-%d' % n, bytes((i * i >> 7 ^ i) & 255 for i in range(n))))
    # geometric frequencies: long Huffman codes
    fib = [1, 1]
    while sum(fib) < 300000:
        fib.append(fib[-1] + fib[-2])
    s = bytearray()
    for i, f in enumerate(fib):
        s += bytes([i * 7 & 255]) * f
    s = list(s)
    rng.shuffle(s)
    r.append(put(ck, 'fibonacci-frequencies', bytes(s)))
    # runs whose lengths have geometric frequencies: long codes for run lengths
    s = bytearray()
    c = 0
    order = []
    for i, f in enumerate(fib[:16]):
        order += [i * 3 + 1] * f
    rng.shuffle(order)
    for l in order:
        s += bytes([c]) * l
        c ^= 1
    r.append(put(ck, 'geometric-run-lengths', bytes(s)))
    # run lengths around powers of two up to 2^22
    s = bytearray()
    for k in range(0, 20):
        for d in (-1, 0, 1):
            s += bytes([(k * 3 + d + 1) & 255]) * max(1, (1 << k) + d)
    r.append(put(ck, 'power-runs', bytes(s)))
    return r
