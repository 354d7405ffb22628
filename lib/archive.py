"""Independent reader of the archive's outer structure (headers, grammars and
lengths; the entropy-coded data is skipped with the help of the lengths)."""


class Bad(Exception):
    pass


class Walk:
    def __init__(self, data):
        self.d, self.p = data, 0

    def u8(self):
        if self.p >= len(self.d):
            raise Bad('archive ends inside a header, at byte %d' % self.p)
        self.p += 1
        return self.d[self.p - 1]

    def packed(self):
        v = s = 0
        while True:
            b = self.u8()
            v |= (b & 127) << s
            s += 7
            if not b & 128:
                return v
            if s > 63:
                raise Bad('endless packed integer at %d' % self.p)

    def u48(self):
        v = 0
        for _ in range(6):
            v = v << 8 | self.u8()
        return v


def grammar(w):
    """Skips a grammar, returns the number of rules."""
    n = w.packed()
    if n == 0:
        return 0
    ns = w.u8()
    specials = [w.u8() for _ in range(ns)]
    if len(set(specials)) != ns:
        raise Bad('escape symbol listed twice')
    flags = [w.u8() for _ in range((n + 7) // 8)]
    for i in range(n):
        w.u8()
        if flags[i // 8] >> (7 - i % 8) & 1:
            w.u8()
    for _ in range(w.u8()):
        w.u8()
    lens = [w.u8() for _ in range((n + 3) // 4)]
    total = 0
    for i in range(n):
        l = lens[i // 4] >> (6 - 2 * (i % 4)) & 3
        if l == 3:
            raise Bad('rule length 5')
        total += l + 2
    w.p += total
    if w.p > len(w.d):
        raise Bad('archive ends inside a grammar')
    return n


def walk(data):
    """Returns a dict describing the archive; raises Bad where lengths do not add up."""
    w = Walk(data)
    coder = chr(w.u8())
    blocks = []
    while True:
        size = w.packed()
        if size == 0:
            break
        nsl = w.packed()
        rules = grammar(w)
        slices = []
        for _ in range(nsl):
            ln = w.u48()
            start = w.p
            if start + ln > len(data):
                raise Bad('length field %d of a block reaches beyond the archive' % ln)
            nlf = w.u8() + 1
            bits = int.from_bytes(data[w.p:w.p + (31 * nlf + 7) // 8], 'big')
            nb = (31 * nlf + 7) // 8
            w.p += nb
            bits >>= nb * 8 - 31 * nlf
            lf = []
            for k in range(nlf):
                lf.append(bits >> (31 * (nlf - 1 - k)) & 0x7fffffff)
            ns = w.u8() or 256
            sec = [w.packed() for _ in range(ns)]
            if w.p - start > ln:
                raise Bad('header of a block is longer than the length field says')
            n = sum(sec)
            if any(x > n for x in lf):
                raise Bad('starting position beyond the block')
            slices.append({'length': ln, 'size': n, 'sections': sec, 'starts': nlf})
            w.p = start + ln
        blocks.append({'original': size, 'slices': slices, 'rules': rules})
    if w.p != len(data):
        raise Bad('%d bytes after the terminator' % (len(data) - w.p))
    return {'coder': coder, 'blocks': blocks}


def walk_preprocessed(data):
    w = Walk(data)
    blocks = []
    while True:
        size = w.packed()
        if size == 0:
            break
        r = grammar(w)
        w.p += size
        if w.p > len(data):
            raise Bad('block reaches beyond the file')
        blocks.append({'size': size, 'rules': r})
    if w.p != len(data):
        raise Bad('%d bytes after the terminator' % (len(data) - w.p))
    return blocks
