// Deterministic input generators shared by every harness.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include <stdint.h>
#include <string>
#include <vector>
#include <algorithm>

namespace vg {
typedef std::vector<unsigned char> Bytes;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) {
    // scrambled, otherwise neighbouring seeds give shifted copies of one stream
    uint64_t z = seed + 0xD1B54A32D192ED03ull;
    z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
    z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 32)) * 0x94D049BB133111EBull;
    s = z ^ (z >> 31);
    next();
  }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};

inline uint64_t hash64(const unsigned char* p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}
inline uint64_t hash64(const Bytes& b) { return hash64(b.empty() ? 0 : &b[0], b.size()); }

// A random alphabet of size k; extremes 0x00 and 0xff are favoured.
inline Bytes alphabet(Rng& r, unsigned k) {
  Bytes all(256);
  for (int i = 0; i < 256; ++i) all[i] = (unsigned char)i;
  for (int i = 255; i > 0; --i) std::swap(all[i], all[r.below(i + 1)]);
  if (r.chance(1, 2)) { size_t p = std::find(all.begin(), all.end(), 0) - all.begin(); std::swap(all[0], all[p]); }
  if (k > 1 && r.chance(1, 2)) { size_t p = std::find(all.begin(), all.end(), 255) - all.begin(); std::swap(all[1], all[p]); }
  all.resize(k);
  return all;
}

inline void appendRun(Bytes& v, unsigned char c, size_t n) { v.insert(v.end(), n, c); }

inline unsigned pickAlpha(Rng& r) {
  static const unsigned a[] = {1, 2, 2, 3, 4, 5, 8, 16, 26, 64, 127, 128, 129, 200, 254, 255, 256, 256};
  return r.pick(a);
}

// ---- families -------------------------------------------------------------
inline Bytes uniformBytes(Rng& r, size_t n) {
  Bytes a = alphabet(r, pickAlpha(r)), v(n);
  for (size_t i = 0; i < n; ++i) v[i] = a[r.below(a.size())];
  return v;
}
inline Bytes skewed(Rng& r, size_t n) {  // geometric symbol distribution
  Bytes a = alphabet(r, pickAlpha(r)), v(n);
  unsigned num = r.range(1, 7);
  for (size_t i = 0; i < n; ++i) {
    size_t k = 0;
    while (k + 1 < a.size() && r.chance(num, 8)) ++k;
    v[i] = a[k];
  }
  return v;
}
inline Bytes runs(Rng& r, size_t n) {
  Bytes a = alphabet(r, pickAlpha(r)), v;
  size_t maxRun = (size_t)1 << r.below(18);
  while (v.size() < n) {
    size_t len = 1 + r.below(1 + r.below(maxRun));
    appendRun(v, a[r.below(a.size())], len);
  }
  v.resize(n);
  return v;
}
// Runs whose lengths are drawn from a chosen multiset: exercises the codes for
// run lengths (Fibonacci, one-of-each, ties, powers of two, a huge outlier).
inline Bytes designedRuns(Rng& r, size_t n) {
  Bytes a = alphabet(r, 2 + r.below(12)), v;
  std::vector<std::pair<size_t, size_t> > spec;  // (length, how many)
  unsigned kind = r.below(7), k = 2 + r.below(14);
  size_t f0 = 1, f1 = 1;
  for (unsigned i = 0; i < k; ++i) {
    size_t len, cnt;
    switch (kind) {
      case 0: len = i + 1; cnt = 1; break;
      case 1: len = i + 1; cnt = f1; { size_t t = f0 + f1; f0 = f1; f1 = t; } break;
      case 2: len = k - i; cnt = (size_t)1 << std::min(i, 10u); break;
      case 3: len = (size_t)1 << std::min(i, 16u); cnt = 1 + r.below(4); break;
      case 4: len = 1 + r.below(40); cnt = 1 + r.below(6); break;
      case 5: len = 1 + r.below(300); cnt = r.pick((const size_t[]){1, 1, 2, 2, 3, 3, 5, 8, 13}); break;
      default: len = i == 0 ? 1 : (i + 1 == k ? 1 + r.below(70000) : i + 1); cnt = i == 0 ? 50 : 1 + r.below(3); break;
    }
    spec.push_back(std::make_pair(len, cnt));
  }
  std::vector<size_t> lens;
  for (size_t i = 0; i < spec.size(); ++i)
    for (size_t j = 0; j < spec[i].second && lens.size() < 5000; ++j) lens.push_back(spec[i].first);
  for (size_t i = lens.size() - 1; i > 0; --i) std::swap(lens[i], lens[r.below(i + 1)]);
  size_t p = 0;
  unsigned prev = 999;
  do {
    unsigned c = r.below(a.size());
    if (c == prev) c = (c + 1) % a.size();
    prev = c;
    appendRun(v, a[c], lens[p]);
    p = (p + 1) % lens.size();
    if (p == 0 && r.chance(1, 2)) break;
  } while (v.size() < n);
  if (v.size() > n) v.resize(n);
  return v;
}
inline Bytes periodic(Rng& r, size_t n) {
  size_t p = 1 + r.below(1 + r.below(300));
  Bytes base = uniformBytes(r, p), v(n);
  for (size_t i = 0; i < n; ++i) v[i] = base[i % p];
  unsigned muts = r.below(4);
  for (unsigned i = 0; i < muts && n; ++i) v[r.below(n)] = (unsigned char)r.next();
  return v;
}
inline Bytes fibonacci(Rng& r, size_t n) {
  Bytes a = alphabet(r, 2), x(1, a[0]), y(1, a[1]);
  while (y.size() < n) { Bytes z = y; z.insert(z.end(), x.begin(), x.end()); x.swap(y); y.swap(z); }
  y.resize(n);
  return y;
}
inline Bytes thueMorse(Rng& r, size_t n) {
  Bytes a = alphabet(r, 2), v(n);
  for (size_t i = 0; i < n; ++i) v[i] = a[__builtin_popcountll(i) & 1];
  return v;
}
inline Bytes markovText(Rng& r, size_t n) {
  std::vector<std::string> words;
  unsigned nw = 5 + r.below(400);
  for (unsigned i = 0; i < nw; ++i) {
    std::string w;
    unsigned l = 1 + r.below(10);
    for (unsigned j = 0; j < l; ++j) w += (char)('a' + (r.below(26) * r.below(26)) / 26);
    words.push_back(w);
  }
  Bytes v;
  while (v.size() < n) {
    const std::string& w = words[(r.below(nw) * r.below(nw)) / nw];
    v.insert(v.end(), w.begin(), w.end());
    v.push_back(r.chance(1, 12) ? '\n' : ' ');
  }
  v.resize(n);
  return v;
}
// Copies of earlier material with small edits (LZ-like structure).
inline Bytes copies(Rng& r, size_t n) {
  Bytes v = uniformBytes(r, std::min<size_t>(n, 1 + r.below(64)));
  while (v.size() < n) {
    size_t len = 1 + r.below(std::max<size_t>(1, std::min<size_t>(v.size(), 5000)));
    size_t from = r.below(v.size() - len + 1);
    for (size_t i = 0; i < len && v.size() < n; ++i) v.push_back(v[from + i]);
    if (r.chance(1, 3)) v.push_back((unsigned char)r.next());
  }
  v.resize(n);
  return v;
}
// Every byte value present a given number of times plus a few very frequent
// pairs: forces pair replacement to free symbols and to make special ones.
inline Bytes pairHeavy(Rng& r, size_t n) {
  unsigned all = r.pick((const unsigned[]){0, 1, 1, 2, 5, 20});
  unsigned present = r.pick((const unsigned[]){256, 256, 256, 255, 254, 250, 200, 128});
  Bytes v, a = alphabet(r, 256);
  unsigned np = r.pick((const unsigned[]){1, 2, 3, 4, 5, 8, 9, 12, 17, 30});
  std::vector<std::pair<unsigned char, unsigned char> > ps;
  bool sameSeen = false;
  for (unsigned i = 0; i < np; ++i) {
    unsigned char x = a[r.below(40)], y = a[r.chance(1, 4) ? r.below(40) : 40 + r.below(60)];
    if (r.chance(1, 6)) { y = x; sameSeen = true; }
    ps.push_back(std::make_pair(x, y));
  }
  (void)sameSeen;
  std::vector<Bytes> chunks;
  for (unsigned i = 0; i < present; ++i)
    for (unsigned k = 0; k < all; ++k) chunks.push_back(Bytes(1, a[i]));
  unsigned rare = r.below(3);
  size_t body = n > chunks.size() ? n - chunks.size() : 0;
  Bytes stream;
  while (stream.size() < body) {
    std::pair<unsigned char, unsigned char> p = ps[(r.below(np) * r.below(np)) / np];
    unsigned rep = r.chance(1, 10) ? 1 + r.below(40) : 1;
    for (unsigned k = 0; k < rep; ++k) { stream.push_back(p.first); stream.push_back(p.second); }
    if (rare == 1 && r.chance(1, 5)) stream.push_back(a[r.below(256)]);
    if (rare == 2 && r.chance(1, 50)) stream.push_back(a[200 + r.below(56)]);
  }
  v.swap(stream);
  for (size_t i = 0; i < chunks.size(); ++i) {
    if (r.chance(1, 2) || v.empty()) v.push_back(chunks[i][0]);
    else v[r.below(v.size())] = chunks[i][0];
  }
  // What the last bytes are matters for the end-of-block handling.
  if (!v.empty() && r.chance(1, 2)) v[v.size() - 1] = a[r.below(256)];
  if (v.size() > 1 && r.chance(1, 3)) v[v.size() - 2] = a[r.below(256)];
  return v;
}
// Bytes that occur nowhere else at the very start, at the end, or once inside.
inline void edges(Rng& r, Bytes& v, const Bytes& a, unsigned present) {
  unsigned next = present;
  for (int where = 0; where < 3; ++where) {
    if (r.chance(1, 2)) continue;
    unsigned char c = next < 256 && r.chance(2, 3) ? a[next++] : a[r.below(256)];
    v.insert(where == 0 ? v.begin() : where == 1 ? v.end() : v.begin() + r.below(v.size() + 1), c);
  }
}
// Many disjoint frequent pairs, nested into words, in a text that uses (nearly)
// every byte value: replacement needs escape symbols, several of them, and
// later rounds find pairs of variables. The length follows from the counts.
inline Bytes grammarHeavy(Rng& r, size_t n) {
  Bytes v, a = alphabet(r, 256);
  unsigned fa = 1 + r.below(24), sb = 1 + r.below(24);
  unsigned depth = r.below(4), width = 1u << depth;   // pairs per word
  size_t count = 1040 + r.below(500);                 // a pair pays off from 1004 on
  size_t maxWords = std::max<size_t>(1, n / (count * 2 * width));
  unsigned nw = 1 + r.below(std::min<size_t>(maxWords, r.chance(1, 2) ? 12 : 60));
  std::vector<Bytes> words(nw);
  for (unsigned i = 0; i < nw; ++i)
    for (unsigned k = 0; k < width; ++k) { words[i].push_back(a[r.below(fa)]); words[i].push_back(a[fa + r.below(sb)]); }
  std::vector<unsigned> order;
  for (unsigned i = 0; i < nw; ++i) { size_t c = r.chance(1, 6) ? 1 + r.below(2 * count) : count + r.below(40 * (i + 1)); for (size_t k = 0; k < c; ++k) order.push_back(i); }
  bool shuffle = r.chance(3, 4);
  if (shuffle) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  // the remaining bytes, all or nearly all of them, with graded frequencies
  unsigned present = r.pick((const unsigned[]){256, 256, 256, 256, 255, 254, 252, 248, 240, 200});
  unsigned step = r.pick((const unsigned[]){0, 1, 2, 5}), most = 1 + r.below(r.chance(1, 3) ? 60 : 6);
  std::vector<unsigned char> rare;
  for (unsigned i = 0; i < present; ++i) {
    unsigned c = 1 + (step ? std::min<unsigned>((i * step) / 16, most) : r.below(most));
    for (unsigned k = 0; k < c; ++k) rare.push_back(a[i]);
  }
  for (size_t i = rare.size(); i > 1; --i) std::swap(rare[i - 1], rare[r.below(i)]);
  unsigned where = r.below(3);  // rare bytes: spread, at the end, at the start
  size_t used = 0, gap = rare.empty() ? 0 : order.size() / rare.size() + 1;
  if (where == 2) { v.insert(v.end(), rare.begin(), rare.end()); used = rare.size(); }
  for (size_t i = 0; i < order.size(); ++i) {
    const Bytes& w = words[order[i]];
    v.insert(v.end(), w.begin(), w.end());
    if (where == 0 && used < rare.size() && r.below(gap) == 0) v.push_back(rare[used++]);
  }
  v.insert(v.end(), rare.begin() + used, rare.end());
  edges(r, v, a, present);
  return v;
}
// As many worthwhile pairs as fit into n bytes, in rounds that build on each
// other, so that variables of early rounds are freed again in later ones.
inline Bytes grammarHuge(Rng& r, size_t n) {
  Bytes v, a = alphabet(r, 256);
  unsigned present = r.pick((const unsigned[]){256, 256, 255, 250, 240, 220, 190, 150, 120});
  unsigned fa = 4 + r.below(present / 3), sb = 4 + r.below(present / 3);
  unsigned depth = r.below(5), width = 1u << depth;
  size_t count = 1010 + r.below(60);
  unsigned nw = std::max<size_t>(1, n / (count * 2 * width));
  std::vector<Bytes> words(nw);
  std::vector<unsigned> order;
  for (unsigned i = 0; i < nw; ++i) {
    for (unsigned k = 0; k < width; ++k) { words[i].push_back(a[r.below(fa)]); words[i].push_back(a[fa + r.below(sb)]); }
    size_t c = count + r.below(3 * i + 2);
    for (size_t k = 0; k < c; ++k) order.push_back(i);
  }
  if (r.chance(4, 5)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  unsigned most = 1 + r.below(r.chance(1, 3) ? 200 : 8);
  for (size_t i = 0; i < order.size(); ++i) v.insert(v.end(), words[order[i]].begin(), words[order[i]].end());
  for (unsigned i = 0; i < present; ++i) for (unsigned c = r.below(most) + 1; c > 0; --c) v.push_back(a[i]);
  edges(r, v, a, present);
  return v;
}
// Replacing gains hardly more than the escaped bytes cost, and those come first,
// so the replaced block is for a long time ahead of the original.
inline Bytes expandFirst(Rng& r, size_t n) {
  Bytes v, a = alphabet(r, 256), pool;
  unsigned s = r.chance(1, 3) ? 2 + r.below(12) : 9 + r.below(3), k = s * (s - 1) - r.below(s);
  unsigned letters = 256 - s - k, nf = letters / 2, ns = letters - nf;
  size_t f = n > 2200 * k ? (n - 2200 * k) / (3 * k + 4 * s) + 1 : 1 + r.below(5);
  if (r.chance(1, 3)) f = 1 + r.below(f);
  for (unsigned i = 0; i < s + k; ++i) for (size_t c = 0; c < f; ++c) pool.push_back(a[i]);
  for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[r.below(i)]);
  std::vector<unsigned> order;
  std::vector<unsigned char> seen(256, 0);
  Bytes fst, snd;
  for (unsigned i = 0, t = 0, left = 0; i < k && i < nf * ns; ++i, --left) {
    if (!left) { left = t ? 2 * t : 2; t += t ? 1 : 2; }  // pairs that one more escape symbol makes possible
    unsigned o = t == 2 ? 1 : t - 1;
    size_t gain = t == 2 ? f + 520 : (f + 1010) / (2 * o) + 5;
    size_t p = f + std::max<size_t>(gain, 1004) + r.below(6);
    fst.push_back(a[s + k + i % nf]); snd.push_back(a[s + k + nf + (i + i / nf) % ns]);
    seen[fst.back()] = seen[snd.back()] = 1;
    for (size_t c = 0; c < p; ++c) order.push_back(i);
  }
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  unsigned where = r.below(8);
  if (where < 6) v = pool;
  for (size_t i = 0; i < order.size(); ++i) {
    if (where == 6 && i == order.size() / 3) v.insert(v.end(), pool.begin(), pool.end());
    v.push_back(fst[order[i]]); v.push_back(snd[order[i]]);
  }
  if (where == 7) v.insert(v.end(), pool.begin(), pool.end());
  Bytes rest;
  for (unsigned i = s + k; i < 256; ++i) if (!seen[a[i]]) rest.insert(rest.end(), f + 1 + r.below(3), a[i]);
  v.insert(v.end(), rest.begin(), rest.end());
  return v;
}
// Every byte value about f times and a few overlapping pairs just frequent
// enough to be worth replacing: a wrong estimate of the gain makes blocks grow.
inline Bytes tightPairs(Rng& r, size_t n) {
  Bytes v, a = alphabet(r, 256);
  unsigned top = std::max<size_t>(2, std::min<size_t>(n / 300, 2000)), f = r.chance(1, 4) ? 1 + r.below(top) : 1 + top / 2 + r.below(top / 2 + 1);
  unsigned base = r.chance(1, 4) ? f + 1000 + r.below(12) : std::max<unsigned>(f + 1004, 2 * f + 480 + r.below(160));
  unsigned letters = 2 + r.below(r.chance(2, 3) ? 3 : 14);
  std::vector<Bytes> units;
  unsigned style = r.chance(1, 2) ? 0 : 1 + r.below(3);
  for (unsigned i = 0; i < 256; ++i) {
    if (i < letters) continue;
    unsigned c = f + (style == 3 ? r.below(f + 1) : i % 3);
    for (unsigned k = 0; k < c; ++k) units.push_back(Bytes(1, a[i]));
  }
  unsigned words = r.chance(2, 3) ? 1 : 2 + r.below(2);
  for (unsigned w = 0; w < words; ++w) {
    Bytes x;
    unsigned len = style == 0 ? letters : 2 + r.below(letters + 1);
    for (unsigned k = 0; k < len; ++k) x.push_back(a[style == 0 ? k : style == 1 ? (w + k) % letters : r.below(letters)]);
    unsigned c = base + r.below(w ? 600 : 20);
    for (unsigned k = 0; k < c; ++k) units.push_back(x);
  }
  for (size_t i = units.size(); i > 1; --i) units[i - 1].swap(units[r.below(i)]);
  for (size_t i = 0; i < units.size(); ++i) v.insert(v.end(), units[i].begin(), units[i].end());
  return v;
}
// Same-symbol pairs in odd and even runs.
inline Bytes samePairs(Rng& r, size_t n) {
  Bytes v, a = alphabet(r, 256);
  unsigned all = r.below(3);
  for (unsigned k = 0; k < all; ++k) v.insert(v.end(), a.begin(), a.end());
  appendRun(v, a[0], r.below(n / 2 + 1));
  unsigned run = 1 + r.below(7);
  while (v.size() < n) { appendRun(v, a[0], r.chance(1, 8) ? 1 + r.below(9) : run); v.push_back(a[1 + r.below(r.chance(1, 4) ? 255 : 2)]); }
  return v;
}
// Each byte value c appears cnt(c) times: section boundaries are made from
// frequencies, so counts near the 10000 limit matter.
inline Bytes sectioned(Rng& r, size_t n) {
  Bytes v, a = alphabet(r, 2 + r.below(20));
  std::sort(a.begin(), a.end());
  for (size_t i = 0; i < a.size() && v.size() < n; ++i) {
    size_t c = r.pick((const size_t[]){9999, 10000, 10001, 5000, 1, 20000, 3333});
    c = std::min(c, n - v.size());
    appendRun(v, a[i], c);
  }
  if (r.chance(2, 3)) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
  return v;
}
// Incompressible except for carries: long stretches of highly probable bits
// with rare surprises drive the range coder to narrow intervals.
inline Bytes surprises(Rng& r, size_t n) {
  Bytes a = alphabet(r, 2 + r.below(3)), v(n);
  unsigned gap = 1u << r.range(3, 14);
  size_t next = r.below(gap) + 1;
  for (size_t i = 0; i < n; ++i) {
    v[i] = a[0];
    if (i == next) { v[i] = a[1 + r.below(a.size() - 1)]; next = i + 1 + r.below(gap); }
  }
  return v;
}
inline Bytes mixture(Rng& r, size_t n);

struct Family { const char* name; Bytes (*fn)(Rng&, size_t); };
inline const std::vector<Family>& families() {
  static std::vector<Family> f;
  if (f.empty()) {
    const Family x[] = {{"uniform", uniformBytes}, {"skewed", skewed}, {"runs", runs},
        {"designedRuns", designedRuns}, {"periodic", periodic}, {"fibonacci", fibonacci},
        {"thueMorse", thueMorse}, {"text", markovText}, {"copies", copies},
        {"pairHeavy", pairHeavy}, {"samePairs", samePairs}, {"sectioned", sectioned},
        {"surprises", surprises}, {"mixture", mixture}};
    f.assign(x, x + sizeof(x) / sizeof(x[0]));
  }
  return f;
}
inline Bytes mixture(Rng& r, size_t n) {
  Bytes v;
  unsigned parts = 2 + r.below(5);
  for (unsigned i = 0; i < parts; ++i) {
    Bytes p = families()[r.below(families().size() - 1)].fn(r, n / parts + 1);
    v.insert(v.end(), p.begin(), p.end());
  }
  if (v.size() > n) v.resize(n);
  return v;
}

// Length biased to small values and to the constants found in the code base.
inline size_t pickLen(Rng& r, size_t maxLen) {
  static const size_t special[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 254, 255, 256, 257, 258, 259,
      511, 512, 513, 1023, 1024, 4095, 4096, 9999, 10000, 10001, 20000, 32767, 32768,
      65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073};
  size_t n;
  switch (r.below(6)) {
    case 0: n = special[r.below(sizeof(special) / sizeof(special[0]))]; break;
    case 1: n = r.below(20); break;
    case 2: n = r.below(600); break;
    case 3: n = r.below(5000); break;
    default: n = r.below(maxLen + 1); break;
  }
  return std::min(n, maxLen);
}

inline Bytes any(Rng& r, size_t maxLen, std::string* name) {
  const Family& f = families()[r.below(families().size())];
  if (name) *name = f.name;
  size_t n = pickLen(r, maxLen);
  Bytes v = f.fn(r, n);
  if (v.size() > maxLen + 600) v.resize(maxLen + 600);
  return v;
}
}  // namespace vg
#endif
