// Monitors the wavelet-tree coder: every (model, bit, probability) event of the
// encoder is logged and the decoder is checked against that log online.
#define VERIF_STREAMS
#include "harness.hpp"
#include "BitCoders.hpp"
#include "WaveletTree.hpp"
#include "probmodels/ProbabilityModel.hpp"
namespace bwtc { int verbosity = 0; }
using namespace vh;
using bwtc::Probability;
typedef bwtc::WaveletTree<std::vector<bool> > Tree;

struct Event { unsigned short p; bool b; };
struct Diverged {};

struct MonEnc {
  dcsbwt::BitEncoder& e; std::vector<Event>& t;
  MonEnc(dcsbwt::BitEncoder& x, std::vector<Event>& tr) : e(x), t(tr) {}
  void encode(bool b, Probability p) { Event ev = {(unsigned short)p, b}; t.push_back(ev); e.encode(b, p); }
  uint64_t counter() { return e.counter(); }
};
struct MonDec {
  dcsbwt::BitDecoder& d; const std::vector<Event>& t; size_t i;
  MonDec(dcsbwt::BitDecoder& x, const std::vector<Event>& tr) : d(x), t(tr), i(0) {}
  bool decode(Probability p) {
    if (i >= t.size()) { violation("decoder-extra-event", "decoder asks for event " + str(i) + " but the encoder coded only " + str(t.size())); throw Diverged(); }
    if (t[i].p != (unsigned short)p) { violation("model-desync", "event " + str(i) + ": encoder used probability " + str(t[i].p) + ", decoder " + str(p)); throw Diverged(); }
    bool b = d.decode(p);
    if (b != t[i].b) { violation("bit-mismatch", "event " + str(i) + " of " + str(t.size()) + ": encoded " + str(t[i].b) + ", decoded " + str(b)); throw Diverged(); }
    ++i;
    return b;
  }
};

// Run-length multisets: (length, count) lists chosen to hit ties, ordering and
// tree-shape corner cases of the run-length code.
static Bytes runSections(Rng& r, size_t maxLen, std::string* name) {
  std::vector<std::pair<size_t, size_t> > spec;
  unsigned k = 1 + r.below(r.chance(1, 3) ? 40 : 8);
  static const size_t big[] = {1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096, 16383, 16384, 65535, 65536};
  unsigned kind = r.below(5);
  for (unsigned i = 0; i < k; ++i) {
    size_t len = kind == 0 ? i + 1 : kind == 1 ? 1 + r.below(30) : kind == 2 ? r.pick(big) : 1 + r.below(1 + r.below(2000));
    size_t cnt;
    switch (r.below(5)) {
      case 0: cnt = 1; break;
      case 1: cnt = 1 + r.below(12); break;
      case 2: cnt = 9 + r.below(4); break;
      case 3: cnt = 1 + r.below(200); break;
      default: cnt = (size_t)1 << r.below(9); break;
    }
    spec.push_back(std::make_pair(len, cnt));
  }
  std::vector<size_t> lens;
  size_t tot = 0;
  for (size_t i = 0; i < spec.size(); ++i)
    for (size_t j = 0; j < spec[i].second; ++j) { if (tot + spec[i].first > maxLen && tot) break; lens.push_back(spec[i].first); tot += spec[i].first; }
  for (size_t i = lens.size() - 1; i > 0; --i) std::swap(lens[i], lens[r.below(i + 1)]);
  Bytes a = vg::alphabet(r, r.pick((const unsigned[]){1, 2, 2, 3, 4, 5, 9, 17, 64, 128, 255, 256})), v;
  unsigned prev = 999, bias = r.below(3);
  for (size_t i = 0; i < lens.size(); ++i) {
    unsigned c = bias == 0 ? r.below(a.size()) : bias == 1 ? (r.below(a.size()) * r.below(a.size())) / a.size() : i % a.size();
    if (c == prev) c = (c + 1) % a.size();
    prev = c;
    vg::appendRun(v, a[c], lens[i]);
  }
  *name = "runSections";
  return v;
}

static const char models[] = {'B', 'b', 'u', 'm', 'M'};

static void one(uint64_t idx, Rng& r) {
  (void)idx;
  char m = r.pick(models);
  unsigned sections = 1 + r.below(4);
  bwtc::ProbabilityModel *pe = bwtc::giveProbabilityModel(m), *pd = bwtc::giveProbabilityModel(m);
  bwtc::ProbabilityModel *ie = bwtc::giveModelForIntegerCodes(), *id = bwtc::giveModelForIntegerCodes();
  bwtc::ProbabilityModel *ge = bwtc::giveModelForGaps(), *gd = bwtc::giveModelForGaps();
  dcsbwt::BitEncoder enc;
  dcsbwt::BitDecoder dec;
  try {
    for (unsigned s = 0; s < sections; ++s) {
      std::string fam;
      Bytes in;
      do { in = r.chance(2, 3) ? runSections(r, ctx().maxLen, &fam) : vg::any(r, ctx().maxLen, &fam); } while (in.empty());
      describe(fam + " n=" + str(in.size()) + " h=" + str(vg::hash64(in)) + " model=" + m + " section=" + str(s));
      if (in.size() > 2) nontrivial(vg::hash64(in) * 131 + m);
      Bytes coded;
      std::vector<Event> trace;
      size_t rootBits, totalBits;
      {
        MemOut out(coded);
        enc.connect(&out);
        enc.resetCounter();
        Tree w(&in[0], in.size());
        rootBits = w.bitsInRoot();
        totalBits = w.totalBits();
        std::vector<bool> shape;
        w.treeShape(shape);
        for (size_t k = 0; k < shape.size();) {
          unsigned char b = 0; size_t j = 0;
          for (; j < 8 && k < shape.size(); ++k, ++j) b = b << 1 | (shape[k] ? 1 : 0);
          b <<= 8 - j;
          out.writeByte(b);
        }
        size_t before = coded.size();
        MonEnc me(enc, trace);
        w.encodeTreeBF(me, *pe, *ie, *ge);
        enc.finish();
        if (enc.counter() != coded.size() - before) violation("coder-byte-count", "counter says " + str(enc.counter()) + ", " + str(coded.size() - before) + " bytes were written");
        pe->resetModel(); ie->resetModel(); ge->resetModel();
      }
      InLog log;
      MemIn src(coded, log);
      Tree w;
      w.readShape(src);
      src.flushBuffer();
      dec.connect(&src);
      dec.start();
      MonDec md(dec, trace);
      w.decodeTreeBF(rootBits, md, *pd, *id, *gd);
      if (md.i != trace.size()) violation("decoder-missing-event", "decoder stopped after " + str(md.i) + " of " + str(trace.size()) + " events");
      if (w.totalBits() != totalBits) violation("tree-bits", "decoded tree holds " + str(w.totalBits()) + " bits, encoded " + str(totalBits));
      Bytes back(in.size() * 2 + 64);
      size_t n;
      {
        Bytes tmp;
        n = w.message(std::back_inserter(tmp));
        back.swap(tmp);
      }
      if (n != in.size() || back != in) {
        size_t p = 0;
        while (p < in.size() && p < back.size() && in[p] == back[p]) ++p;
        violation("message-mismatch", "decoded " + str(n) + " bytes of " + str(in.size()) + ", first difference at " + str(p));
        throw Diverged();
      }
      if (log.overrun) violation("section-overrun", "decoder read " + str(log.overrun) + " bytes past the section");
      if (log.consumed != coded.size()) violation("section-consumption", "decoder consumed " + str(log.consumed) + " of " + str(coded.size()) + " bytes");
      pd->resetModel(); id->resetModel(); gd->resetModel();
      count("events_checked", trace.size());
      count("sections");
      count(("model_" + std::string(1, m)).c_str());
      std::set<unsigned short> ps;
      for (size_t i = 0; i < trace.size(); ++i) ps.insert(trace[i].p);
      maxi("distinct_probabilities_in_section", ps.size());
      maxi("events_in_section", trace.size());
    }
  } catch (Diverged&) {
  }
  delete pe; delete pd; delete ie; delete id; delete ge; delete gd;
}
int main(int argc, char** argv) { return mainLoop(argc, argv, one); }
