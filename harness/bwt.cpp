// Monitors the Burrows-Wheeler transforms. The oracle is the textbook inverse:
// a string with one end marker is the BWT of T exactly when walking its LF
// mapping from the marker's row visits every row and spells T.
#include "harness.hpp"
#include "globaldefs.hpp"
using bwtc::uint32;
using bwtc::uint64;
using bwtc::byte;
#include "BWTBlock.hpp"
#include "bwtransforms/BWTransform.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/sais.hxx"
#ifndef VERIF_MINIMAL
#include "bwtransforms/divsufsort.h"
#endif
namespace bwtc { int verbosity = 0; }
using namespace vh;
typedef bwtc::uint32 u32;

// Checks L (n+1 rows, end marker in row eob) and the starting positions.
static bool checkBwt(const Bytes& rev, const Bytes& L, const std::vector<u32>& lf, const std::string& who) {
  size_t n = rev.size(), rows = n + 1;
  u32 eob = lf[0];
  if (eob >= rows) { violation("bwt-marker-out-of-range " + who, "row " + str(eob) + " of " + str(rows)); return false; }
  std::vector<u32> cnt(257, 0), LF(rows);
  for (size_t i = 0; i < rows; ++i) if (i != eob) ++cnt[L[i] + 1];
  cnt[0] = 1;
  for (int c = 1; c <= 256; ++c) cnt[c] += cnt[c - 1];
  for (size_t i = 0; i < rows; ++i) if (i != eob) LF[i] = cnt[L[i]]++;
  LF[eob] = 0;
  u32 pos = 0;
  for (size_t k = 0; k < n; ++k) {
    if (pos == eob) { violation("bwt-wrong " + who, "cycle closes after " + str(k) + " of " + str(n) + " characters"); return false; }
    if (L[pos] != rev[n - 1 - k]) { violation("bwt-wrong " + who, "spells another text, character " + str(k) + " from the end"); return false; }
    pos = LF[pos];
  }
  if (pos != eob) { violation("bwt-wrong " + who, "walk does not end in the marker's row"); return false; }
  size_t s = lf.size(), bs = rows / s;
  if (s <= n) {
    u32 p = eob;
    size_t j = 0;
    for (size_t i = 0; j < s; ++i) {
      if (i == j * bs) {
        if (lf[j] != p) { violation("starting-position " + who, "position " + str(j) + " of " + str(s) + " is " + str(lf[j]) + ", should be " + str(p) + ", n=" + str(n)); return false; }
        ++j;
      }
      p = LF[p];
    }
    count("starting_positions_checked", s);
  }
  count("rows_checked", rows);
  return true;
}

static void checkFreqs(const Bytes& t, const u32* f, const std::string& who) {
  u32 e[256] = {0};
  for (size_t i = 0; i < t.size(); ++i) ++e[t[i]];
  for (int c = 0; c < 256; ++c) if (f[c] != e[c]) { violation("character-count " + who, "byte " + str(c) + " counted " + str(f[c]) + " times, occurs " + str(e[c]) + " times"); return; }
}

static const u32 canaryLen = 16;

static void direct(const Bytes& t, char algo, bool freqs, unsigned starts) {
  size_t n = t.size();
  Bytes rev(t.rbegin(), t.rend());
  Bytes data(n + 1 + canaryLen, 0xA5);
  std::copy(rev.begin(), rev.end(), data.begin());
  data[n] = 0;
  std::vector<u32> lf(starts, 0xFFFFFFFFu);
  u32 f[256] = {0};
  bwtc::BWTransform* tr = bwtc::giveTransformer(algo);
  if (freqs) tr->doTransform(&data[0], n + 1, lf, f);
  else tr->doTransform(&data[0], n + 1, lf);
  delete tr;
  std::string who = std::string(1, algo) + (freqs ? "+counts" : "");
  for (size_t i = n + 1; i < data.size(); ++i) if (data[i] != 0xA5) { violation("bwt-writes-outside " + who, "byte after the block changed"); break; }
  if (lf.size() != starts) violation("starting-position-count " + who, str(lf.size()) + " instead of " + str(starts));
  Bytes L(data.begin(), data.begin() + n + 1);
  checkBwt(rev, L, lf, who);
  if (freqs) checkFreqs(t, f, who);
  bwtc::InverseBWTransform* inv = bwtc::giveInverseTransformer();
  // what stands in the marker's row must not matter
  data[lf[0] <= n ? lf[0] : 0] = (unsigned char)(n * 7);
#ifndef VERIF_MINIMAL
  if (lf[0] <= n) {  // the other implementation of the inverse
    Bytes copy(data);
    bwtc::FastInverseBWTransform fast;
    fast.doTransform(&copy[0], n + 1, lf);
    if (!std::equal(t.begin(), t.end(), copy.begin())) violation("fast-inverse-wrong " + who, "block not recovered, n=" + str(n));
    for (size_t i = n + 1; i < copy.size(); ++i) if (copy[i] != 0xA5) { violation("fast-inverse-writes-outside " + who, "byte after the block changed"); break; }
    count("fast_inverse");
  }
#endif
  inv->doTransform(&data[0], n + 1, lf);
  delete inv;
  if (!std::equal(t.begin(), t.end(), data.begin())) {
    size_t p = 0;
    while (p < n && t[p] == data[p]) ++p;
    violation("inverse-wrong " + who, "first difference at " + str(p) + " of " + str(n) + ", " + str(starts) + " starting positions");
  }
  for (size_t i = n + 1; i < data.size(); ++i) if (data[i] != 0xA5) { violation("inverse-writes-outside " + who, "byte after the block changed"); break; }
  count(("direct_" + who).c_str());
}

// The way the compressor uses it: a slice of a bigger buffer.
static void managed(const Bytes& t, char algo, unsigned starts, bool freqs, unsigned char next) {
  size_t n = t.size();
  Bytes buf(t.begin(), t.end());
  buf.insert(buf.begin(), 8, 0x5A);
  buf.push_back(next);
  buf.insert(buf.end(), 8, 0x5A);
  bwtc::BWTManager m;
  m.initialize(algo);
  m.setStartingPoints(starts);
  bwtc::BWTBlock b(&buf[8], n, false);
  u32 f[256] = {0};
  if (freqs) m.doTransform(b, f); else m.doTransform(b);
  if (buf[8 + n] != next) violation("slice-next-byte", "byte following the slice changed from " + str((int)next) + " to " + str((int)buf[8 + n]));
  for (int i = 0; i < 8; ++i) if (buf[i] != 0x5A || buf[9 + n + i] != 0x5A) { violation("slice-outside", "bytes around the slice changed"); break; }
  if (freqs) checkFreqs(t, f, "managed");
  if (b.size() != n) violation("slice-size", str(b.size()));
  std::vector<u32> lf = b.LFpowers();
  size_t want = n <= 256 ? 1 : starts;
  if (lf.size() != want) violation("slice-starting-positions", str(lf.size()) + " for n=" + str(n) + " and " + str(starts) + " asked");
  // the marker's row holds the last row's character now
  Bytes L(buf.begin() + 8, buf.begin() + 8 + n);
  if (lf[0] <= n) {
    unsigned char last = lf[0] < n ? L[lf[0]] : 0;
    L.push_back(last);
    Bytes rev(t.rbegin(), t.rend());
    checkBwt(rev, L, lf, "managed");
    bwtc::BWTBlock ib(&buf[8], n, true);
    ib.LFpowers() = lf;
    bwtc::InverseBWTransform* inv = bwtc::giveInverseTransformer();
    inv->doTransform(ib);
    delete inv;
    if (!std::equal(t.begin(), t.end(), buf.begin() + 8)) violation("slice-inverse", "block not recovered, n=" + str(n));
  } else violation("slice-marker", "marker row " + str(lf[0]));
  // the header as it goes into the archive
  count("managed");
}

static void suffixArray(const Bytes& t, bool divs) {
  size_t n = t.size();
  std::vector<int> sa(n + 8, 0x5A5A5A5A);
#ifdef VERIF_MINIMAL
  divs = false;
#else
  if (divs) {
    int rc = divsufsort(&t[0], &sa[0], (int)n);
    if (rc != 0) { violation("suffix-array-error divsufsort", "returned " + str(rc)); return; }
  } else
#endif
  {
    int rc = saisxx(t.begin(), sa.begin(), (int)n, 256);
    if (rc != 0) { violation("suffix-array-error", "returned " + str(rc)); return; }
  }
  for (size_t i = n; i < sa.size(); ++i) if (sa[i] != 0x5A5A5A5A) { violation("suffix-array-writes-outside", "entry after the array changed"); return; }
  std::vector<int> rank(n + 1, -1);
  for (size_t i = 0; i < n; ++i) {
    if (sa[i] < 0 || (size_t)sa[i] >= n || rank[sa[i]] != -1) { violation(std::string("suffix-array-wrong ") + (divs ? "divsufsort" : "sais"), "entry " + str(i) + " is not part of a permutation"); return; }
    rank[sa[i]] = (int)i;
  }
  rank[n] = -1;  // the empty suffix is the smallest
  for (size_t i = 1; i < n; ++i) {
    int a = sa[i - 1], b = sa[i];
    if (t[a] > t[b] || (t[a] == t[b] && rank[a + 1] > rank[b + 1])) { violation(std::string("suffix-array-wrong ") + (divs ? "divsufsort" : "sais"), "suffixes " + str(a) + " and " + str(b) + " in wrong order"); return; }
  }
  count("suffix_array_entries_checked", n);
}

// Text with long common prefixes and deep sorting recursion.
static Bytes hard(Rng& r, size_t n, int kind = -1) {
  Bytes a = vg::alphabet(r, 1 + r.below(4)), v;
  unsigned k = kind >= 0 ? kind : r.below(8);
  if (k >= 5 && k <= 6) {  // Sturmian-like words: deep tandem repeats, exhausts the sorter's budget
    Bytes x(1, a[0]), y(1, (unsigned char)(a[a.size() - 1] + (a.size() == 1)));
    if (k == 6) { x = vg::uniformBytes(r, 1 + r.below(5)); y = vg::uniformBytes(r, 1 + r.below(5)); }
    unsigned top = 1 + r.below(4);
    while (x.size() < n) {
      Bytes t = x, z;
      unsigned c = 1 + r.below(top);
      for (unsigned i = 0; i < c; ++i) z.insert(z.end(), x.begin(), x.end());
      z.insert(z.end(), y.begin(), y.end());
      y = t; x = z;
    }
    size_t off = x.size() > n && r.chance(1, 3) ? r.below(x.size() - n + 1) : 0;
    v.assign(x.begin() + off, x.begin() + off + n);
    if (n && r.chance(1, 8)) v[r.below(n)] ^= 1;
    return v;
  }
  if (k == 7) {  // nearly every second suffix of the type to be sorted: no spare room for the sorters
    unsigned lo = 1 + r.below(r.chance(1, 2) ? 3 : 12), hi = 1 + r.below(r.chance(1, 2) ? 3 : 40);
    size_t extra = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.below(40) : r.below(3 * lo * hi + 2);
    size_t every = extra ? n / (extra + 1) + 1 : n + 1;
    unsigned rep = r.chance(1, 4) ? 1 + r.below(300) : 0;
    while (v.size() < n) {
      size_t b = v.size();
      if (rep && b > 2 * rep && r.chance(3, 4)) { size_t from = 2 * r.below(b / 2 - rep / 2 > 0 ? b / 2 - rep / 2 : 1); for (unsigned i = 0; i < rep && v.size() < n; ++i) v.push_back(v[from + i]); if (v.size() & 1) v.push_back(128 + r.below(hi)); }
      v.push_back((unsigned char)(1 + r.below(lo)));
      if (b / every != (b + 2) / every) v.push_back(v.back());
      v.push_back((unsigned char)(128 + r.below(hi)));
    }
    v.resize(n); return v;
  }
  if (k == 0) { vg::appendRun(v, a[0], n); if (n && r.chance(1, 2)) v[r.below(n)] = a[a.size() - 1]; return v; }
  if (k == 1) {  // w^k x w^k y ...
    Bytes w = vg::uniformBytes(r, 1 + r.below(200));
    while (v.size() < n) { unsigned rep = 1 + r.below(40); for (unsigned i = 0; i < rep; ++i) v.insert(v.end(), w.begin(), w.end()); v.push_back((unsigned char)r.next()); }
    v.resize(n); return v;
  }
  if (k == 2) {  // increasing runs a b aa b aaa b
    size_t l = 1;
    while (v.size() < n) { vg::appendRun(v, a[0], l++); v.push_back(a[a.size() - 1]); }
    v.resize(n); return v;
  }
  if (k == 3) {  // two copies of the same random text
    Bytes w = vg::uniformBytes(r, n / 2 + 1);
    v = w; v.insert(v.end(), w.begin(), w.end()); v.resize(n); return v;
  }
  // de Bruijn like: all strings of a short length, repeated
  while (v.size() < n) for (unsigned x = 0; x < 4096 && v.size() < n; ++x) for (int s = 9; s >= 0; s -= 3) v.push_back(a[((x >> s) & 7) % a.size()]);
  return v;
}

static void exhaustive(uint64_t idx) {
  // strings over {0,1,255} in length order
  static const unsigned char al[3] = {0, 1, 255};
  size_t n = 1; uint64_t c = 3, i = idx;
  while (i >= c) { i -= c; ++n; c *= 3; }
  Bytes t(n);
  for (size_t k = 0; k < n; ++k) { t[k] = al[i % 3]; i /= 3; }
  describe("exhaustive n=" + str(n) + " #" + str(idx));
  nontrivial(vg::hash64(t) + n);
  unsigned ss[] = {1, (unsigned)std::min<size_t>(n, 2), (unsigned)n};
  for (int s = 0; s < 3; ++s) for (int f = 0; f < 2; ++f) { direct(t, 'd', f, ss[s]); direct(t, 's', f, ss[s]); }
  suffixArray(t, false);
  suffixArray(t, true);
}

static void one(uint64_t idx, Rng& r) {
  if (ctx().mode == "exh") { exhaustive(idx); return; }
  std::string fam;
  Bytes t;
  do {
    if (ctx().mode == "tandem") { fam = "tandem"; t = hard(r, 20 + r.below(ctx().maxLen), 5 + r.below(2)); }
    else if (ctx().mode == "alternating") { fam = "alternating"; t = hard(r, ctx().maxLen / 4 + r.below(ctx().maxLen * 3 / 4), 7); }
    else if (ctx().mode == "huge" && idx % 4 < 2) {  // one byte occurs more than 2^24 times
      fam = "dominated";
      size_t n = (1u << 24) + 70000 + r.below(2000000);
      unsigned char a = (unsigned char)r.next(), b = (unsigned char)(a ^ (1 + r.below(255)));
      vg::appendRun(t, a, n);
      size_t others = idx % 4 ? 1 + r.below(40) : 20000 + r.below(40000);
      for (size_t i = 0; i < others; ++i) t[r.below(n)] = r.chance(1, 2) ? b : (unsigned char)r.next();
    }
    else if (r.chance(1, 3)) { fam = "hard"; t = hard(r, vg::pickLen(r, ctx().maxLen)); }
    else t = vg::any(r, ctx().maxLen, &fam);
  } while (t.empty());
  size_t n = t.size();
  unsigned starts = r.pick((const unsigned[]){1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 100, 127, 128, 200, 254, 255, 256});
  if (starts > n) starts = 1 + r.below(n);
  describe(fam + " n=" + str(n) + " h=" + str(vg::hash64(t)) + " s=" + str(starts));
  if (n > 2) nontrivial(vg::hash64(t) * 257 + starts);
  direct(t, 'd', r.chance(1, 2), starts);
  direct(t, 's', r.chance(1, 2), starts);
  managed(t, r.pick((const char[]){'d', 's', 'a'}), 1 + r.below(256), r.chance(1, 2), (unsigned char)r.next());
  suffixArray(t, false);
  suffixArray(t, true);
  maxi("block_len", n);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, one); }
