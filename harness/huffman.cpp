// Monitors the Huffman block coder on sections chosen directly (no transform in
// between): deep codes, full bit buffers, extreme run lengths, any number of
// sections.  --mode huge: runs of 2^28 bytes and more.
#define VERIF_STREAMS
#include "harness.hpp"
#include "HuffmanCoders.hpp"
#include "BWTBlock.hpp"
namespace bwtc { int verbosity = 0; }
using namespace vh;

// Symbols with the given numbers of occurrences in random order, equal
// neighbours avoided where possible so that the runs have these frequencies.
static void arrange(Rng& r, const std::vector<size_t>& freq, const Bytes& a, Bytes& v, unsigned runs) {
  Bytes seq;
  for (size_t i = 0; i < freq.size(); ++i) seq.insert(seq.end(), freq[i], a[i]);
  for (size_t i = seq.size(); i > 1; --i) std::swap(seq[i - 1], seq[r.below(i)]);
  // spread the most frequent symbol over the gaps between the others
  if (r.chance(2, 3)) {
    size_t top = std::max_element(freq.begin(), freq.end()) - freq.begin();
    Bytes others, out;
    for (size_t i = 0; i < seq.size(); ++i) if (seq[i] != a[top]) others.push_back(seq[i]);
    size_t left = freq[top];
    for (size_t i = 0; i < others.size(); ++i) { if (left) { out.push_back(a[top]); --left; } out.push_back(others[i]); }
    seq.swap(out);
  }
  for (size_t i = 0; i < seq.size(); ++i)
    vg::appendRun(v, seq[i], runs == 0 ? 1 : runs == 1 ? 1 + r.below(3) : (size_t)1 << r.below(1 + r.below(9)));
}
static Bytes section(Rng& r, size_t maxLen, std::string* fam) {
  Bytes v;
  if (r.chance(1, 4)) { do { v = vg::any(r, maxLen, fam); } while (v.empty()); return v; }
  std::vector<size_t> f;
  unsigned kind = r.below(4), runs = r.chance(2, 3) ? 0 : r.below(3);
  size_t tot = 0, lim = std::max<size_t>(maxLen / (runs == 2 ? 40 : runs == 1 ? 2 : 1), 4);
  if (kind == 0) {  // a chain over many rare symbols: many long code words
    size_t rare = 1 + r.below(240), x = rare;
    for (size_t i = 0; i < rare && tot < lim; ++i) { f.push_back(1); ++tot; }
    while (f.size() < 256 && tot + x <= lim) { f.push_back(x); tot += x; x = tot + r.below(2); }
  } else if (kind == 1) {  // Fibonacci: the longest possible code words
    size_t p = 1, q = 1;
    while (f.size() < 256 && tot + p <= lim) { f.push_back(p); tot += p; size_t t = p + q; p = q; q = t; }
  } else if (kind == 2) {  // powers with a random base
    double x = 1, b = 1 + (1 + r.below(30)) / 15.0;
    while (f.size() < 256 && tot + (size_t)x <= lim) { f.push_back((size_t)x); tot += (size_t)x; x *= b; }
  } else {
    unsigned k = 1 + r.below(256);
    for (unsigned i = 0; i < k && tot < lim; ++i) { size_t c = 1 + r.below(1 + r.below(lim / k + 1)); f.push_back(c); tot += c; }
  }
  if (f.empty()) f.push_back(1);
  Bytes a = vg::alphabet(r, 256);
  arrange(r, f, a, v, runs);
  *fam = "kind" + str(kind) + "/" + str(runs);
  if (v.empty()) v.push_back(a[0]);
  return v;
}

static void check(const Bytes& data, const std::vector<uint32_t>& stats, const std::vector<uint32_t>& lf) {
  Bytes coded;
  MemOut out(coded);
  {
    bwtc::HuffmanEncoder enc;
    bwtc::BWTBlock b(const_cast<unsigned char*>(&data[0]), data.size(), true);
    b.LFpowers().assign(lf.begin(), lf.end());
    std::vector<bwtc::uint32> s(stats.begin(), stats.end());
    enc.writeBlockHeader(b, s, &out);
    enc.encodeData(&data[0], s, data.size(), &out);
    enc.finishBlock(&out);
    uint64_t tot = 0;
    for (size_t i = 0; i < s.size(); ++i) tot += s[i];
    if (tot != data.size()) violation("sections-sum", "sections add up to " + str(tot) + " of " + str(data.size()));
    maxi("sections", s.size());
  }
  if (!out.faults.empty()) violation("stream-misuse", out.faults[0]);
  if (out.patches.size() != 1 || out.patches[0].first != 0 || out.patches[0].second != coded.size() - 6)
    violation("length-field", "block of " + str(coded.size() - 6) + " bytes, field says " + (out.patches.empty() ? std::string("nothing") : str(out.patches[0].second)));
  InLog log;
  Bytes back(data.size() + 64, 0xA5);
  {
    MemIn in(coded, log);
    bwtc::HuffmanDecoder dec;
    bwtc::BWTBlock b;
    b.setBegin(&back[0]);
    dec.decodeBlock(b, &in);
    if (b.size() != data.size()) violation("decoded-size", str(b.size()) + " instead of " + str(data.size()));
    if (std::vector<uint32_t>(b.LFpowers().begin(), b.LFpowers().end()) != lf) violation("starting-points", "not those of the block");
  }
  if (memcmp(&back[0], &data[0], data.size()) != 0) {
    size_t p = 0;
    while (back[p] == data[p]) ++p;
    violation("section-mismatch", "first difference at " + str(p) + " of " + str(data.size()));
  }
  for (size_t i = data.size(); i < back.size(); ++i) if (back[i] != 0xA5) { violation("write-past-block", "byte " + str(i - data.size()) + " after the block was changed"); break; }
  if (log.overrun) violation("decoder-overrun", "decoder read " + str(log.overrun) + " bytes past the end");
  if (log.consumed != coded.size()) violation("decoder-consumption", "decoder consumed " + str(log.consumed) + " of " + str(coded.size()));
  count("bytes", data.size());
  count("coded_bytes", coded.size());
  maxi("block", data.size());
}

static void one(uint64_t idx, Rng& r) {
  std::vector<uint32_t> stats, lf;
  Bytes data;
  std::string fam;
  if (ctx().mode == "huge") {
    size_t big = (((size_t)1 << (28 + idx % 3)) + (size_t)r.below(5)) - 2;
    unsigned pre = r.below(12);
    for (unsigned i = 0; i < pre; ++i) vg::appendRun(data, (unsigned char)(i * 3), 1 + r.below(70));
    vg::appendRun(data, 0xC8, big);
    unsigned post = r.below(5);
    for (unsigned i = 0; i < post; ++i) vg::appendRun(data, (unsigned char)(i * 5 + 1), 1 + r.below(9));
    stats.push_back(data.size());
    lf.push_back(data.size() - 1);
    describe("huge run=" + str(big) + " before=" + str(pre) + " after=" + str(post));
    nontrivial(vg::hash64(&data[0], 1000) + big);
    check(data, stats, lf);
    return;
  }
  unsigned n = r.chance(1, 2) ? 1 : 1 + r.below(r.chance(1, ctx().maxLen > 100000 ? 6 : 60) ? 256 : 5);
  for (unsigned i = 0; i < n; ++i) {
    Bytes s = section(r, n > 8 ? 300 : ctx().maxLen / n, &fam);
    if (n > 8) while (s.size() < 10000) { Bytes t = s; s.insert(s.end(), t.begin(), t.end()); }
    data.insert(data.end(), s.begin(), s.end());
    stats.push_back(s.size());
    if (r.chance(1, 8)) stats.push_back(0);
  }
  if (stats.size() > 256) stats.erase(std::remove(stats.begin(), stats.end(), 0u), stats.end());
  unsigned starts = r.pick((const unsigned[]){1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256});
  for (unsigned i = 0; i < starts; ++i) lf.push_back(r.chance(1, 8) ? 0x7fffffff : r.chance(1, 8) ? 0 : r.below(data.size() + 1));
  describe(fam + " n=" + str(data.size()) + " h=" + str(vg::hash64(data)) + " sections=" + str(n) + " starts=" + str(starts));
  if (data.size() > 1) nontrivial(vg::hash64(data));
  check(data, stats, lf);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, one); }
