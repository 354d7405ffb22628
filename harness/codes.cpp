// Monitors prefix codes (--mode huff) and integer / run-length primitives
// (--mode ints) against independent definitions.
#define VERIF_STREAMS
#include "harness.hpp"
#include <queue>
#include <functional>
#include "Utils.hpp"
#include "WaveletTree.hpp"
namespace bwtc { int verbosity = 0; }
using namespace vh;
typedef bwtc::uint64 u64;
typedef bwtc::uint32 u32;
typedef std::vector<bool> Bits;
typedef bwtc::WaveletTree<Bits> Tree;
typedef unsigned __int128 u128;
typedef std::vector<std::pair<u64, u32> > Lens;

static u128 optimalCost(const std::vector<u64>& f) {
  std::priority_queue<u128, std::vector<u128>, std::greater<u128> > q;
  for (size_t i = 0; i < f.size(); ++i) if (f[i]) q.push(f[i]);
  u128 c = 0;
  if (q.size() == 1) return q.top();  // one symbol has length one
  while (q.size() > 1) { u128 a = q.top(); q.pop(); u128 b = q.top(); q.pop(); c += a + b; q.push(a + b); }
  return c;
}
static bool kraft(const std::vector<u64>& lens) {
  if (lens.size() == 1) return lens[0] == 1;
  std::map<u64, u64> m;
  for (size_t i = 0; i < lens.size(); ++i) { if (lens[i] == 0 || lens[i] > 4096) return false; ++m[lens[i]]; }
  while (true) {
    std::map<u64, u64>::iterator it = --m.end();
    u64 l = it->first, c = it->second;
    if (l == 0) return c == 1;
    if (c & 1) return false;
    m.erase(it);
    m[l - 1] += c / 2;
  }
}
static void checkLens(const std::vector<u64>& freq, const Lens& l, const std::vector<u32>* names, const std::string& who) {
  std::map<u32, u64> byName;
  size_t nz = 0;
  for (size_t i = 0; i < freq.size(); ++i) nz += freq[i] != 0;
  std::vector<u64> lens;
  u128 cost = 0;
  std::map<u32, u64> f;
  for (size_t i = 0; i < freq.size(); ++i) if (freq[i]) f[names ? (*names)[i] : (u32)i] = freq[i];
  for (size_t i = 0; i < l.size(); ++i) {
    if (!f.count(l[i].second)) { violation("code-symbols " + who, "a code for symbol " + str(l[i].second) + " that does not occur or occurs twice"); return; }
    cost += (u128)l[i].first * f[l[i].second];
    f.erase(l[i].second);
    lens.push_back(l[i].first);
  }
  if (!f.empty()) { violation("code-symbols " + who, str(f.size()) + " symbols without a code"); return; }
  if (!kraft(lens)) { violation("code-kraft " + who, "lengths are not those of a complete code, " + str(nz) + " symbols"); return; }
  u128 best = optimalCost(freq);
  if (cost != best) violation("code-not-optimal " + who, "cost " + str((u64)cost) + ", minimum " + str((u64)best) + ", " + str(nz) + " symbols");
  count("codes_checked");
}
static std::vector<u64> freqs(Rng& r, size_t n) {
  std::vector<u64> f(n, 0);
  unsigned kind = r.below(9), zero = r.below(3);
  u64 a = 1, b = 1, base = 1 + r.below(1000);
  for (size_t i = 0; i < n; ++i) {
    u64 x;
    switch (kind) {
      case 0: x = base; break;
      case 1: x = a; { u64 t = a + b; a = b; b = t; } if (a > (1ull << 55)) { a = b = 1; } break;
      case 2: x = 1ull << std::min<size_t>(i % 54, 54); break;
      case 3: x = 1 + r.below(3); break;
      case 4: x = 1 + r.below(1000000); break;
      case 5: x = 1 + r.below(1ull << r.range(1, 50)); break;
      case 6: x = i == 0 ? (1ull << 40) : 1; break;
      case 7: x = i + 1; break;
      default: x = r.chance(1, 2) ? 1 : 10 + r.below(5); break;
    }
    f[i] = x;
  }
  if (zero == 1) for (size_t i = 0; i < n; ++i) if (r.chance(1, 3)) f[i] = 0;
  if (zero == 2) for (size_t i = 0; i < n; ++i) if (r.chance(9, 10)) f[i] = 0;
  for (size_t i = n; i > 1; --i) if (r.chance(1, 2)) std::swap(f[i - 1], f[r.below(i)]);
  bool any = false;
  for (size_t i = 0; i < n; ++i) any |= f[i] != 0;
  if (!any) f[r.below(n)] = 1 + r.below(9);
  return f;
}
static std::string bitStr(const Bits& b) { std::string s; for (size_t i = 0; i < b.size() && i < 60; ++i) s += b[i] ? '1' : '0'; return s; }
static bool prefixOf(const Bits& a, const Bits& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static void checkWords(const std::vector<Bits>& w, const std::string& who) {
  // sorted lexicographically, a prefix stands directly before some extension
  std::vector<Bits> s;
  for (size_t i = 0; i < w.size(); ++i) if (!w[i].empty()) s.push_back(w[i]);
  std::sort(s.begin(), s.end());
  for (size_t i = 1; i < s.size(); ++i) if (prefixOf(s[i - 1], s[i])) { violation("not-prefix-free " + who, bitStr(s[i - 1]) + " and " + bitStr(s[i])); return; }
  count("words_checked", s.size());
}
struct BitSrc {
  const Bits& b; size_t p; uint64_t over;
  explicit BitSrc(const Bits& x) : b(x), p(0), over(0) {}
  bool readBit() { if (p >= b.size()) { if (++over > 1000000) { violation("bits-overrun", "endless read"); _exit(78); } ++p; return true; } return b[p++]; }
  unsigned char readByte() { unsigned v = 0; for (int i = 0; i < 8; ++i) v = v << 1 | (readBit() ? 1 : 0); return (unsigned char)v; }
};

static void destroyTree(bwtc::TreeNode<Bits>* n) { if (!n) return; destroyTree(n->m_left); destroyTree(n->m_right); delete n; }

static void huff(uint64_t idx, Rng& r) {
  size_t n = r.pick((const unsigned[]){1, 2, 3, 4, 5, 16, 60, 128, 255, 256, 256});
  if (r.chance(1, 3)) n = 1 + r.below(256);
  std::vector<u64> f = freqs(r, n);
  uint64_t fp = vg::hash64((const unsigned char*)&f[0], n * 8);
  describe("huff n=" + str(n) + " h=" + str(fp));
  nontrivial(fp);
  {
    std::vector<u64> g = f; Lens l;
    utils::calculateHuffmanLengths(l, &g[0], (u32)n);
    checkLens(f, l, 0, "huffman");
    // code words as the Huffman coder makes them
    u32 clen[256] = {0}, code[256];
    u64 longest = 0;
    for (size_t i = 0; i < l.size(); ++i) { clen[l[i].second & 255] = (u32)l[i].first; longest = std::max(longest, l[i].first); }
    maxi("longest_code", longest);
    if (longest < 256) {
      utils::computeHuffmanCodes(clen, code);
      std::vector<Bits> w(256);
      for (int c = 0; c < 256; ++c) for (u32 k = 0; k < clen[c]; ++k) { u32 sh = clen[c] - 1 - k; w[c].push_back(sh < 32 ? (code[c] >> sh) & 1 : false); }
      checkWords(w, "huffman");
    }
  }
  {
    std::vector<u64> g = f; Lens l;
    std::vector<u32> names(n);
    u32 nm = r.below(5);
    for (size_t i = 0; i < n; ++i) { names[i] = nm; nm += 1 + r.below(r.chance(1, 5) ? 100000 : 2); }
    utils::calculateHuffmanLengths(l, &g[0], names);
    checkLens(f, l, &names, "named");
  }
  {
    Lens l;
    for (size_t i = 0; i < n; ++i) if (f[i]) l.push_back(std::make_pair(f[i], (u32)i));
    bool pre = r.chance(1, 2);
    if (pre) std::sort(l.begin(), l.end());
    utils::calculateCodeLengths(l, 0, pre);
    checkLens(f, l, 0, "lengths");
  }
  {
    u64 rf[256] = {0};
    for (size_t i = 0; i < n; ++i) rf[i] = f[i];
    bwtc::TreeNode<Bits>* root = Tree::createHuffmanShape(rf);
    Bits codes[256];
    Tree::collectCodes(codes, root);
    destroyTree(root);
    std::vector<Bits> w(codes, codes + 256);
    Lens l;
    for (int c = 0; c < 256; ++c) if (!w[c].empty()) l.push_back(std::make_pair((u64)w[c].size(), (u32)c));
    checkLens(f, l, 0, "huffman-shape");
    checkWords(w, "huffman-shape");
  }
  // serialised shape of a wavelet tree over a given alphabet
  {
    unsigned k = idx % 256 + 1;
    Bytes a = vg::alphabet(r, k), m;
    if (r.chance(1, 4)) { unsigned off = r.below(257 - k); for (unsigned i = 0; i < k; ++i) a[i] = (unsigned char)(off + i); }
    unsigned style = r.below(5);
    size_t fa = 1, fb = 1;
    size_t cap = std::max<size_t>(4000, ctx().maxLen);
    for (unsigned i = 0; i < k; ++i) {
      size_t c = style == 0 ? 1 : style == 1 ? fa : style == 2 ? 1 + r.below(20) : style == 3 ? (size_t)1 << std::min(i, 9u) : 1 + (i == 0) * 300;
      size_t t = fa + fb; fa = fb; fb = std::min<size_t>(t, 1500);
      size_t run = style == 4 ? 1 + r.below(1 + r.below(3000)) : 1 + r.below(3);
      for (size_t j = 0; j < c && m.size() < cap; ++j) { vg::appendRun(m, a[i], run); if (k > 1) m.push_back(a[(i + 1) % k]); }
      if (m.size() >= cap) for (unsigned q = i; q < k; ++q) m.push_back(a[q]);
      if (m.size() >= cap) break;
    }
    describe("shape alphabet=" + str(k) + " style=" + str(style) + " n=" + str(m.size()));
    nontrivial(vg::hash64(m));
    Tree t(&m[0], m.size());
    // codes are optimal for the number of runs of each character
    std::vector<u64> runs(256, 0);
    for (size_t i = 0; i < m.size(); ++i) if (i == 0 || m[i] != m[i - 1]) ++runs[m[i]];
    Lens l;
    std::vector<Bits> w(256);
    for (int c = 0; c < 256; ++c) { w[c] = t.code((unsigned char)c); if (!w[c].empty()) l.push_back(std::make_pair((u64)w[c].size(), (u32)c)); }
    checkLens(runs, l, 0, "wavelet");
    checkWords(w, "wavelet");
    Bits shape;
    t.treeShape(shape);
    size_t exact = shape.size();
    BitSrc src(shape);
    Tree o;
    size_t bits = o.readShape(src);
    if (src.over) violation("shape-overrun", "reading the shape needs " + str(src.over) + " more bits than were written");
    else if (src.p != exact) violation("shape-consumption", "read " + str(src.p) + " of " + str(exact) + " bits");
    if (bits != src.p) violation("shape-bits-reported", "reported " + str(bits) + ", read " + str(src.p));
    for (int c = 0; c < 256; ++c) if (o.code((unsigned char)c) != w[c]) { violation("shape-mismatch", "code of byte " + str(c) + " is " + bitStr(w[c]) + ", read back as " + bitStr(o.code((unsigned char)c))); break; }
    Bits again;
    o.treeShape(again);
    if (again != shape) violation("shape-not-stable", "the shape written from the tree read back differs");
    count("shapes_checked");
    ctx().ctr["alphabet_sizes_" + std::string(k <= 16 ? "1_16" : k <= 128 ? "17_128" : k < 256 ? "129_255" : "256")]++;
  }
}

static u64 anyInt(Rng& r, unsigned maxBits) {
  unsigned b = r.below(maxBits + 1);
  if (b == 0) return r.below(4);
  u64 top = b >= 64 ? ~0ull : (1ull << b) - 1;
  switch (r.below(4)) {
    case 0: return top;
    case 1: return (top >> 1) + 1;
    case 2: return top - std::min<u64>(top, r.below(3));
    default: return r.next() & top;
  }
}

static void ints(uint64_t idx, Rng& r) {
  describe("ints");
  const u64 lim = (1ull << 56) - 1;
  uint64_t fp = idx;
  for (int k = 0; k < 60; ++k) {
    u64 v = std::min(anyInt(r, 56), lim);
    if (idx < 40) v = idx * 60 + k;
    fp = fp * 31 + v;
    describe("integer " + str(v));
    int bytes = -1;
    u64 p = utils::packInteger(v, &bytes);
    int want = 1;
    while (want < 8 && (v >> (7 * want))) ++want;
    if (bytes != want) violation("pack-length", str(v) + " packed into " + str(bytes) + " bytes, needs " + str(want));
    if (utils::unpackInteger(p) != v) violation("pack-unpack", str(v) + " comes back as " + str(utils::unpackInteger(p)));
    // bytes as they go to a file
    unsigned char buf[24]; memset(buf, 0xC3, sizeof buf);
    utils::writePackedInteger(p, buf);
    for (int j = bytes; j < 24; ++j) if (buf[j] != 0xC3) { violation("pack-write", str(v) + " wrote past its " + str(bytes) + " bytes"); break; }
    Bits stream, rev;
    for (int j = 0; j < bytes; ++j) { for (int q = 7; q >= 0; --q) stream.push_back((buf[j] >> q) & 1); for (int q = 0; q < 8; ++q) rev.push_back((buf[j] >> q) & 1); }
    Bits viaPush;
    utils::pushBitsRev(viaPush, p, 8 * bytes);
    if (viaPush != rev) violation("push-bits-rev", str(v));
    { BitSrc s(stream); size_t br = 0; size_t x = utils::readPackedInteger(s, br); if (x != v || br != (size_t)bytes || s.p != stream.size()) violation("read-packed", str(v) + " read as " + str(x) + " from " + str(br) + " bytes"); }
    { BitSrc s(rev); size_t br = 0; size_t x = utils::readPackedIntegerRev(s, br); if (x != v || br != (size_t)bytes || s.p != rev.size()) violation("read-packed-rev", str(v) + " read as " + str(x) + " from " + str(br) + " bytes"); }
    if (v) {
      u64 big = r.chance(1, 3) ? anyInt(r, 63) | 1 : v;
      memset(buf, 0xC3, sizeof buf);
      unsigned wb = utils::packAndWriteInteger(big, buf);
      u64 x = 0;
      unsigned rb = utils::readAndUnpackInteger(buf, &x);
      if (x != big || rb != wb) violation("pack-and-write", str(big) + " written in " + str(wb) + " bytes, read as " + str(x) + " from " + str(rb));
      if (buf[wb] != 0xC3) violation("pack-and-write", str(big) + " wrote past the reported bytes");
    }
    // logarithms and bits
    u64 w = anyInt(r, 64) | (r.chance(1, 2) ? 1 : 0);
    if (w) {
      unsigned fl = 63 - __builtin_clzll(w);
      if (utils::logFloor((unsigned long)w) != fl) violation("log-floor", str(w));
      if (w <= (1ull << 63)) { unsigned ce = (w & (w - 1)) ? fl + 1 : fl; if (utils::logCeiling((unsigned long)w) != ce) violation("log-ceiling", str(w) + " gives " + str((int)utils::logCeiling((unsigned long)w))); }
      u32 x = (u32)w;
      if (x) {
        unsigned f32 = 31 - __builtin_clz(x);
        if (utils::logFloor(x) != f32) violation("log-floor-32", str(x));
        if (x <= 0x80000000u) { unsigned ce = (x & (x - 1)) ? f32 + 1 : f32; if (utils::logCeiling(x) != ce) violation("log-ceiling-32", str(x)); }
        if (utils::mostSignificantBit(x) != 1u << f32) violation("most-significant-bit", str(x));
        u32 h = x & 0xffff;
        if (h && utils::mostSignificantBit16(h) != 1u << (31 - __builtin_clz(h))) violation("most-significant-bit-16", str(h));
      }
      if (utils::mostSignificantBit(0) != 0 || utils::mostSignificantBit16(0) != 0) violation("most-significant-bit", "0");
    }
    // unary
    { size_t n = 1 + r.below(r.chance(1, 20) ? 5000 : 70); Bits b; utils::unaryCode(b, n); BitSrc s(b); size_t d = utils::unaryDecode(s); if (b.size() != n || d != n || s.p != n) violation("unary", str(n) + " has " + str(b.size()) + " bits and reads as " + str(d)); }
    // binary with bounds
    {
      u64 lo = anyInt(r, 40), span = anyInt(r, r.chance(1, 8) ? 61 : 34), hi = lo + span;
      if (idx < 30) { lo = r.below(3); span = idx + r.below(2); hi = lo + span; }
      u64 v2 = lo + (r.chance(1, 3) ? (r.chance(1, 2) ? 0 : span) : r.below(span + 1));
      Bits b;
      utils::binaryCode(v2, lo, hi, b);
      unsigned ce = span == 0 ? 0 : (span & (span + 1)) ? 64 - __builtin_clzll(span) : __builtin_popcountll(span);
      if (b.size() > ce || (ce && b.size() + 1 < ce)) violation("binary-length", str(v2) + " in [" + str(lo) + "," + str(hi) + "] takes " + str(b.size()) + " bits");
      BitSrc s(b), s2(b);
      u64 d = utils::binaryDecode(s, lo, hi);
      size_t br = 7;
      u64 d2 = utils::binaryDecode(s2, lo, hi, &br);
      if (d != v2 || s.p != b.size()) violation("binary", str(v2) + " in [" + str(lo) + "," + str(hi) + "] reads as " + str(d) + ", " + str(s.p) + " of " + str(b.size()) + " bits");
      if (d2 != v2 || s2.p != b.size() || br != 7 + b.size()) violation("binary-counted", str(v2) + " in [" + str(lo) + "," + str(hi) + "] reads as " + str(d2) + ", reports " + str(br - 7) + " of " + str(b.size()) + " bits");
      count("bounded_integers");
      if (span && span < 300 && r.chance(1, 4)) {  // the whole range: distinct, prefix-free
        std::vector<Bits> all;
        for (u64 q = lo; q <= hi; ++q) { Bits c; utils::binaryCode(q, lo, hi, c); all.push_back(c); }
        checkWords(all, "binary");
      }
    }
    // gamma and semi-fixed codes of run lengths
    {
      u64 n = 1 + anyInt(r, 31);
      Bits g; Tree::gammaCode(g, n);
      unsigned lg = 63 - __builtin_clzll(n);
      bool ok = g.size() == 2 * lg + 1;
      for (unsigned q = 0; ok && q < lg; ++q) ok = g[q];
      ok = ok && !g[lg];
      u64 back = 1;
      for (unsigned q = lg + 1; ok && q < g.size(); ++q) back = back << 1 | (g[q] ? 1 : 0);
      if (!ok || back != n) violation("gamma", str(n) + " is coded as " + bitStr(g));
      u32 W = r.below(16), x = (u32)std::min<u64>(n, 0x7fffffff);
      Bits c; Tree::fixedIntegerCode(c, x, W);
      if (Tree::lengthOfFixedCode(x, W) != c.size()) violation("fixed-code-length", str(x) + " w=" + str(W) + ": length " + str(Tree::lengthOfFixedCode(x, W)) + ", code has " + str(c.size()));
      size_t B = 0;
      while (B < c.size() && c[B]) ++B;
      u64 y = 0;
      for (size_t q = B + 1; q < c.size(); ++q) y = y << 1 | (c[q] ? 1 : 0);
      if (c.size() != 2 * B + W + 1 || y + Tree::fixedIntegerCodeTranslation(B, W) != x) violation("fixed-code", str(x) + " w=" + str(W) + " is coded as " + bitStr(c));
    }
  }
  nontrivial(fp);
  // interpolative lists
  for (int k = 0; k < 6; ++k) {
    u64 maxV = r.chance(1, 2) ? r.below(300) : r.chance(1, 2) ? r.below(5000) : anyInt(r, 31);
    size_t cnt = maxV < 5000 ? 1 + r.below(maxV + 1) : 1 + r.below(300);
    if (r.chance(1, 8) && maxV < 5000) cnt = maxV + 1;
    std::set<u32> s;
    unsigned style = r.below(3);
    while (s.size() < cnt && s.size() <= maxV) {
      u64 base = style == 0 ? r.below(maxV + 1) : style == 1 ? r.below(std::min<u64>(maxV + 1, cnt * 2)) : maxV - r.below(std::min<u64>(maxV + 1, cnt * 2));
      s.insert((u32)base);
    }
    std::vector<u32> list(s.begin(), s.end()), back;
    describe("interpolative count=" + str(list.size()) + " max=" + str(maxV));
    Bits b;
    utils::binaryInterpolativeCode(list, maxV, b);
    size_t n = b.size();
    b.push_back(false); b.push_back(true);
    BitSrc src(b);
    size_t br = utils::binaryInterpolativeDecode(back, src, maxV, list.size());
    if (back != list) violation("interpolative", "list of " + str(list.size()) + " integers up to " + str(maxV) + " not recovered");
    if (br != n || src.p != n) violation("interpolative-bits", "read " + str(src.p) + ", reported " + str(br) + " of " + str(n) + " bits");
    nontrivial(vg::hash64((const unsigned char*)&list[0], list.size() * 4) + maxV);
    count("interpolative_lists");
    std::vector<unsigned char> bl, bb;
    if (maxV <= 255) {
      bl.assign(list.begin(), list.end());
      Bits b2;
      utils::binaryInterpolativeCode(bl, maxV, b2);
      BitSrc s2(b2);
      utils::binaryInterpolativeDecode(bb, s2, maxV, bl.size());
      if (bb != bl) violation("interpolative-bytes", str(bl.size()) + " bytes up to " + str(maxV) + " not recovered");
    }
  }
  // runs
  for (int k = 0; k < 3; ++k) {
    std::string fam;
    Bytes t;
    do t = vg::any(r, ctx().maxLen, &fam); while (t.empty());
    if (k == 0 && r.chance(1, 2)) { t = vg::runs(r, 1 + r.below(12)); }
    describe("runs " + fam + " n=" + str(t.size()) + " h=" + str(vg::hash64(t)));
    u64 want[256] = {0};
    std::vector<std::pair<unsigned char, u32> > rs;
    for (size_t i = 0; i < t.size();) { size_t j = i; while (j < t.size() && t[j] == t[i]) ++j; rs.push_back(std::make_pair(t[i], (u32)(j - i))); ++want[t[i]]; i = j; }
    std::map<u32, u32> wl;
    for (size_t i = 0; i < rs.size(); ++i) ++wl[rs[i].second];
    Bytes guard(t); guard.push_back(t[t.size() - 1]);  // the byte behind the text continues the last run
    { u64 f[256] = {0}; utils::calculateRunFrequencies(f, &guard[0], t.size()); if (memcmp(f, want, sizeof f)) violation("run-frequencies", "wrong, n=" + str(t.size())); }
    { u64 f[256] = {0}; std::map<u32, u32> m; size_t tot = utils::calculateRunsAndCharacters(f, &guard[0], t.size(), m);
      if (memcmp(f, want, sizeof f) || m != wl || tot != rs.size()) violation("runs-and-characters", "wrong, n=" + str(t.size()) + ", " + str(tot) + " runs instead of " + str(rs.size())); }
    { u64 f[256] = {0}; Bytes seq(rs.size() + 4, 0xA5); std::vector<u32> len(rs.size() + 4, 0xA5A5A5A5u);
      u64 tot = utils::calculateRunFrequenciesAndStoreRuns(f, &seq[0], &len[0], &guard[0], t.size());
      bool ok = tot == rs.size() && !memcmp(f, want, sizeof f);
      for (size_t i = 0; ok && i < rs.size(); ++i) ok = seq[i] == rs[i].first && len[i] == rs[i].second;
      for (size_t i = rs.size(); ok && i < seq.size(); ++i) ok = seq[i] == 0xA5 && len[i] == 0xA5A5A5A5u;
      if (!ok) violation("store-runs", "wrong, n=" + str(t.size()) + ", " + str(tot) + " runs instead of " + str(rs.size())); }
    nontrivial(vg::hash64(t));
    count("runs_checked", rs.size());
  }
}
static void one(uint64_t idx, Rng& r) { if (ctx().mode == "huff") huff(idx, r); else ints(idx, r); }
int main(int argc, char** argv) { return mainLoop(argc, argv, one); }
