// In-process round trips through Compressor and Decompressor with monitored
// memory streams.  --mode plain: no preprocessing; --mode prepr: with.
#define VERIF_STREAMS
#include "harness.hpp"
#include <sys/wait.h>
#include "Compressor.hpp"
#include "Decompressor.hpp"
namespace bwtc { int verbosity = 0; }
using namespace vh;

static const char coders[] = {'B', 'b', 'u', 'm', 'M', 'H'};

static void roundtrip(const Bytes& in, char coder, const std::string& prepr, size_t mem, char bwt, unsigned starts) {
  Bytes comp, out;
  size_t reported;
  InLog il, dl;
  std::vector<std::string> faults;
  std::vector<std::pair<long, uint64_t> > patches;
  {
    MemOut* mo = new MemOut(comp);
    // the compressor owns and deletes its streams: watch through a thin owner
    struct Own : public MemOut { std::vector<std::string>& f; std::vector<std::pair<long, uint64_t> >& p;
      Own(Bytes& d, std::vector<std::string>& ff, std::vector<std::pair<long, uint64_t> >& pp) : MemOut(d), f(ff), p(pp) {}
      ~Own() { f = faults; p = patches; } };
    delete mo;
    bwtc::Compressor c(new MemIn(in, il), new Own(comp, faults, patches), prepr, mem, coder);
    c.initializeBwtAlgorithm(bwt, starts);
    reported = c.compress(1);
  }
  if (!faults.empty()) violation("compress-stream-misuse", faults[0]);
  if (reported != comp.size()) violation("reported-size", "compress() reported " + str(reported) + " bytes, wrote " + str(comp.size()));
  if (il.consumed != in.size()) violation("input-not-consumed", "compressor read " + str(il.consumed) + " of " + str(in.size()));
  size_t dsize;
  {
    bwtc::Decompressor d(new MemIn(comp, dl), new MemOut(out));
    dsize = d.decompress(1);
  }
  if (out != in) {
    size_t p = 0;
    while (p < out.size() && p < in.size() && out[p] == in[p]) ++p;
    violation("roundtrip-mismatch", "in " + str(in.size()) + " bytes, out " + str(out.size()) + " bytes, first difference at " + str(p));
  }
  if (dsize != out.size()) violation("decompressed-size", "decompress() reported " + str(dsize) + ", wrote " + str(out.size()));
  if (dl.overrun) violation("decoder-overrun", "decoder read " + str(dl.overrun) + " bytes past the end");
  if (dl.consumed != comp.size()) violation("decoder-consumption", "decoder consumed " + str(dl.consumed) + " of " + str(comp.size()));
  count("bwt_blocks", patches.size());
  count("bytes_in", in.size());
  count("bytes_compressed", comp.size());
  count("decoder_bits_read", dl.bits);
  count("decoder_bytes_read", dl.bytes);
  count(("coder_" + std::string(1, coder)).c_str());
  maxi("blocks_per_file", patches.size());
  maxi("input_len", in.size());
}

// All short strings over a small alphabet, in length order; every coder, and
// block boundaries at every position.
static void exhaustive(uint64_t idx, bool pre) {
  static const unsigned char al[3] = {0, 'a', 255};
  uint64_t i = idx, c = 3; size_t n = 1;
  while (i >= c) { i -= c; ++n; c *= 3; }
  Bytes in(n);
  for (size_t k = 0; k < n; ++k) { in[k] = al[i % 3]; i /= 3; }
  nontrivial(vg::hash64(in) + n + pre);
  for (unsigned e = 0; e < sizeof coders; ++e) {
    if (pre && e != idx % sizeof coders) continue;
    for (unsigned blocks = 1; blocks <= (pre ? 1 : 3); ++blocks) {
      size_t per = (n + blocks - 1) / blocks;
      size_t mem = (size_t)(per / (pre ? 0.74 : 0.185)) + (pre ? 60 : 4);
      describe("exhaustive n=" + str(n) + " #" + str(idx) + " enc=" + coders[e] + " mem=" + str(mem) + (pre ? " prepr=pp" : ""));
      roundtrip(in, coders[e], pre ? "pp" : "", mem, "dsa"[(idx + e) % 3], 1 + (idx * 7 + e) % 256);
    }
  }
}
// Every alphabet size, with several shapes of the code tree, every coder.
static void alphabets(uint64_t idx, Rng& r) {
  unsigned k = idx % 256 + 1;
  Bytes a = vg::alphabet(r, k), in;
  unsigned style = (unsigned)(idx / 256 + idx) % 5;
  size_t fa = 1, fb = 1;
  for (unsigned i = 0; i < k; ++i) {
    size_t c = style == 0 ? 1 : style == 1 ? fa : style == 2 ? 1 + r.below(40) : style == 3 ? (size_t)1 << std::min(i % 20, 12u) : (i ? 3 : 3000);
    size_t t = fa + fb; fa = fb; fb = t > 6000 ? 1 : t;
    for (size_t j = 0; j < c; ++j) vg::appendRun(in, a[i], style == 2 ? 1 + r.below(4) : 1);
  }
  if (r.chance(3, 4)) for (size_t i = in.size(); i > 1; --i) std::swap(in[i - 1], in[r.below(i)]);
  for (unsigned e = 0; e < sizeof coders; ++e) {
    if (coders[e] != 'H' && e != (idx + idx / 256) % sizeof coders) continue;
    describe("alphabet size=" + str(k) + " style=" + str(style) + " n=" + str(in.size()) + " h=" + str(vg::hash64(in)) + " enc=" + coders[e]);
    nontrivial(vg::hash64(in) * 7 + e);
    roundtrip(in, coders[e], "", (size_t)(in.size() / 0.185) + 100, 'a', 8);
  }
}
// What a compressor or decompressor makes must not depend on what other ones in
// the same process did before, or do in the meantime.  The parent never runs the
// library, so each history starts from a fresh process.
struct Job { Bytes in; char coder; std::string prepr; size_t mem; char bwt; unsigned starts; };
static Job job(Rng& r) {
  Job j;
  j.in = r.chance(1, 5) ? vg::grammarHeavy(r, 500 + r.below(ctx().maxLen)) : vg::any(r, ctx().maxLen, 0);
  j.coder = r.pick(coders);
  j.prepr = std::string(r.chance(1, 2) ? 0 : 1 + r.below(4), 'p');
  j.mem = (size_t)((j.in.size() / (1 + r.below(4)) + 2) / (j.prepr.empty() ? 0.185 : 0.74)) + 60;
  j.bwt = r.pick((const char[]){'d', 's', 'a'});
  j.starts = r.pick((const unsigned[]){1, 2, 8, 100, 256});
  return j;
}
struct Running {
  Bytes comp; InLog log; bwtc::Compressor* c;
  explicit Running(const Job& j) : c(new bwtc::Compressor(new MemIn(j.in, log), new MemOut(comp), j.prepr, j.mem, j.coder)) {
    c->initializeBwtAlgorithm(j.bwt, j.starts);
  }
  void run() { c->compress(1); delete c; c = 0; }
};
static bool decodes(const Bytes& comp, const Bytes& in) {
  InLog l; Bytes out;
  bwtc::Decompressor d(new MemIn(comp, l), new MemOut(out));
  d.decompress(1);
  return out == in;
}
static const unsigned kHistories = 6;
struct Result { uint64_t archive; uint64_t size; uint64_t decoded; };
static Result history(unsigned kind, const Job& a, const Job& b) {
  Result res; res.decoded = 1;
  Bytes got;
  if (kind == 1) { Running x(b); x.run(); res.decoded &= decodes(x.comp, b.in); }
  if (kind == 2) { Running x(a); x.run(); Running y(b); y.run(); }
  if (kind == 3 || kind == 4) {  // lifetimes overlap, in both orders
    Running x(kind == 3 ? b : a), y(kind == 3 ? a : b);
    (kind == 3 ? x : y).run();
    (kind == 3 ? y : x).run();
    got = (kind == 3 ? y : x).comp;
    res.decoded &= decodes((kind == 3 ? x : y).comp, b.in);
  } else if (kind == 5) {  // a decompressor that is alive all along, many runs before
    for (int k = 0; k < 3; ++k) { Running x(k % 2 ? a : b); x.run(); }
    Running y(a); y.run(); got = y.comp;
    InLog l1, l2; Bytes o1, o2;
    Running x(b); x.run();
    bwtc::Decompressor d1(new MemIn(x.comp, l1), new MemOut(o1)), d2(new MemIn(got, l2), new MemOut(o2));
    d2.decompress(1); d1.decompress(1);
    res.decoded &= o1 == b.in && o2 == a.in;
  } else { Running x(a); x.run(); got = x.comp; }
  res.decoded &= decodes(got, a.in);
  res.archive = vg::hash64(got); res.size = got.size();
  return res;
}
static void histories(Rng& r) {
  Job a = job(r), b = job(r);
  if (r.chance(1, 4)) { b = a; b.coder = r.pick(coders); }
  std::string d = "n=" + str(a.in.size()) + " h=" + str(vg::hash64(a.in)) + " enc=" + a.coder + " prepr=" + a.prepr + " bwt=" + a.bwt + " s=" + str(a.starts) + " mem=" + str(a.mem)
    + ", other n=" + str(b.in.size()) + " enc=" + b.coder + " prepr=" + b.prepr + " mem=" + str(b.mem);
  Result first;
  for (unsigned k = 0; k < kHistories; ++k) {
    describe("history " + str(k) + " " + d);
    int p[2];
    if (pipe(p)) return;
    pid_t pid = fork();
    if (pid < 0) return;
    if (pid == 0) {
      signal(SIGALRM, SIG_DFL);
      alarm(ctx().limit);
      Result x = history(k, a, b);
      if (write(p[1], &x, sizeof x) != sizeof x) {}
      _exit(0);
    }
    close(p[1]);
    Result x;
    bool got = read(p[0], &x, sizeof x) == sizeof x;
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!got) { violation("history-crashed", "status " + str(st)); return; }
    count("histories");
    if (!x.decoded) violation("history-roundtrip", "decoded data differs");
    if (!k) first = x;
    else if (x.archive != first.archive || x.size != first.size) violation("history-archive-differs", str(x.size) + " bytes, " + str(first.size) + " in a fresh process");
    nontrivial(vg::hash64(a.in) * 31 + vg::hash64((const unsigned char*)ctx().desc.data(), ctx().desc.size()));
  }
}
// Lengthens an input so that its preprocessed form has a round length.
static bool roundLength(Bytes& in, const std::string& prepr, Rng& r) {
  const size_t m = (size_t)256 << r.below(6);
  for (int t = 0; t < 8; ++t) {
    InLog il;
    MemIn mi(in, il);
    bwtc::Precompressor pc(prepr);
    bwtc::PrecompressorBlock* b = pc.readBlock(in.size() + 1, &mi);
    size_t n = b->size(), rules = b->grammar().numberOfRules();
    delete b;
    if (n % m == 0 && n < in.size() && rules) { count("round_lengths"); maxi("round_length", m); return true; }
    for (size_t k = m - n % m; k > 0; --k) in.push_back((unsigned char)r.below(256));
  }
  return false;
}

static void one(uint64_t idx, Rng& r) {
  if (ctx().mode == "history") { histories(r); return; }
  if (ctx().mode == "exh" || ctx().mode == "exhp") { exhaustive(idx, ctx().mode == "exhp"); return; }
  if (ctx().mode == "alpha") { alphabets(idx, r); return; }
  std::string fam;
  bool most = ctx().mode == "max", heavy = most || ctx().mode == "grammar", round = ctx().mode == "round";
  Bytes in = most ? vg::grammarHuge(r, ctx().maxLen / 3 + r.below(ctx().maxLen)) : heavy ? vg::grammarHeavy(r, 2000 + r.below(ctx().maxLen)) : round ? vg::pairHeavy(r, 3000 + r.below(ctx().maxLen)) : vg::any(r, ctx().maxLen, &fam);
  if (heavy) fam = most ? "grammarHuge" : "grammarHeavy";
  char coder = r.pick(coders);
  bool pre = heavy || round || ctx().mode == "prepr";
  std::string prepr = pre ? std::string(1 + r.below(r.chance(1, 4) ? 8 : 3), 'p') : "";
  if (round) { if (roundLength(in, prepr, r)) fam = "roundLength"; else fam = "pairHeavy"; }
  char bwt = r.pick((const char[]){'d', 's', 'a'});
  unsigned starts = r.pick((const unsigned[]){1, 2, 3, 4, 7, 8, 8, 9, 16, 100, 254, 255, 256});
  size_t mem;
  double f = pre ? 0.74 : 0.185;
  if (r.chance(1, 2) || round) mem = (size_t)((in.size() + 2) / f) + 100;
  else {
    size_t blocks = 1 + r.below(6);
    mem = (size_t)((in.size() / blocks + r.below(3)) / f) + (pre ? 40 : 8);
  }
  describe(fam + " n=" + str(in.size()) + " h=" + str(vg::hash64(in)) + " enc=" + coder + " prepr=" + prepr + " bwt=" + bwt + " s=" + str(starts) + " mem=" + str(mem));
  if (in.size() > 1) nontrivial(vg::hash64(in) * 31 + vg::hash64((const unsigned char*)ctx().desc.data(), ctx().desc.size()));
  roundtrip(in, coder, prepr, mem, bwt, starts);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, one); }
