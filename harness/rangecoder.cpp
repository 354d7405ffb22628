// Monitors the range coder and the probability models directly, with
// adversarial probabilities and intervals.
#define VERIF_STREAMS
#include "harness.hpp"
#include <math.h>
#include "BitCoders.hpp"
#include "probmodels/ProbabilityModel.hpp"
namespace bwtc { int verbosity = 0; }
using namespace vh;
using bwtc::Probability;

// Shadow of the coder's interval, used only to steer towards corner cases.
struct Shadow {
  uint32_t lo, hi;
  Shadow() : lo(0), hi(0xFFFFFFFFu) {}
  uint32_t split(unsigned p) const { return lo + (uint32_t)(((uint64_t)(hi - lo - 1) * p + 2048) >> 12); }
  void take(bool b, unsigned p) {
    uint32_t s = split(p);
    if (b) hi = s; else lo = s + 1;
    while (((lo ^ hi) >> 24) == 0) { lo <<= 8; hi = (hi << 8) + 255; }
  }
};

static void coder(Rng& r) {
  unsigned kind = r.below(8), seqs = 1 + r.below(4);
  size_t n0 = r.below(ctx().maxLen);
  dcsbwt::BitEncoder enc;
  dcsbwt::BitDecoder dec;
  for (unsigned q = 0; q < seqs; ++q) {
    size_t n = r.chance(1, 6) ? r.below(4) : r.below(n0 + 1);
    describe("coder kind=" + str(kind) + " n=" + str(n) + " seq=" + str(q));
    std::vector<std::pair<unsigned short, bool> > t(n);
    Shadow sh;
    double ideal = 0;
    uint64_t fp = n * 31 + kind;
    unsigned runp = r.below(4097);
    for (size_t i = 0; i < n; ++i) {
      unsigned p; bool b;
      switch (kind) {
        case 0: p = r.below(4097); b = r.below(4096) < p; break;                   // honest
        case 1: p = r.below(4097); b = r.next() & 1; break;                         // dishonest
        case 2: p = r.chance(1, 2) ? 0 : 4096; b = r.next() & 1; break;             // certain, sometimes wrong
        case 3: p = r.pick((const unsigned[]){0, 1, 2, 2047, 2048, 2049, 4094, 4095, 4096}); b = r.chance(1, 50) ? (r.next() & 1) : p >= 2048; break;
        case 4: {  // keep the interval astride a byte boundary and as narrow as possible
          uint32_t mid = sh.hi & 0xFF000000u;
          p = r.below(4097);
          uint64_t span = (uint64_t)(sh.hi - sh.lo - 1);
          if (span > 4096 && r.chance(3, 4)) { uint64_t want = (uint64_t)(mid - sh.lo); p = (unsigned)std::min<uint64_t>(4096, want * 4096 / span + r.below(2)); }
          uint32_t s = sh.split(p);
          b = s >= mid;               // stay on the side that still crosses
          if (r.chance(1, 3000)) b = !b;
          break;
        }
        case 5: if (r.chance(1, 200)) runp = r.below(4097); p = runp; b = r.below(4096) < p; break;
        case 6: p = 4095; b = !r.chance(1, 4096); break;
        default: p = 1 + r.below(3); b = r.chance(1, 1000); break;
      }
      t[i] = std::make_pair((unsigned short)p, b);
      sh.take(b, p);
      fp = fp * 1099511628211ull + p * 2 + b;
      double pr = b ? p / 4096.0 : 1 - p / 4096.0;
      ideal -= pr > 0 ? log2(pr) : -32;
    }
    if (n) nontrivial(fp);
    Bytes coded;
    Bytes before;
    size_t head = r.below(3);
    coded.assign(head, 0xEE);
    {
      MemOut out(coded);
      enc.connect(&out);
      enc.resetCounter();
      for (size_t i = 0; i < n; ++i) enc.encode(t[i].second, t[i].first);
      enc.finish();
      if (enc.counter() != coded.size() - head) violation("coder-byte-count", "counter says " + str(enc.counter()) + ", " + str(coded.size() - head) + " bytes were written");
    }
    size_t len = coded.size() - head;
    // what follows must not matter nor be touched
    unsigned tail = r.below(4);
    for (unsigned k = 0; k < tail; ++k) coded.push_back((unsigned char)r.next());
    InLog log;
    MemIn in(coded, log);
    for (size_t k = 0; k < head; ++k) in.readByte();
    dec.connect(&in);
    dec.start();
    for (size_t i = 0; i < n; ++i) {
      bool b = dec.decode(t[i].first);
      if (b != t[i].second) { violation("range-coder-bit", "bit " + str(i) + " of " + str(n) + " (probability " + str(t[i].first) + "): coded " + str(t[i].second) + ", decoded " + str(b)); return; }
    }
    if (log.consumed != head + len) violation("range-coder-consumption", "decoder consumed " + str(log.consumed - head) + " of " + str(len) + " bytes");
    if (log.overrun) violation("range-coder-overrun", str(log.overrun) + " bytes past the end");
    count("coded_bits", n);
    count(("coder_kind_" + str(kind)).c_str());
    if (kind != 1 && kind != 2 && kind != 4) {
      // honest probabilities: close to the information content
      double over = len * 8.0 - ideal;
      if (over > 64 + ideal * 0.02) violation("range-coder-cost", "spent " + str(len * 8) + " bits for an information content of " + str((uint64_t)ideal) + " bits (n=" + str(n) + ")");
      maxi("overhead_permille", ideal > 20000 ? (uint64_t)std::max(0.0, over * 1000 / ideal) : 0);
    }
  }
}

// Two instances of the same model that see the same bits always agree, the
// probability is legal, and asking does not change it.
static void models(Rng& r) {
  static const char ms[] = {'B', 'b', 'u', 'm', 'M', 'i', 'g'};
  char m = r.pick(ms);
  bwtc::ProbabilityModel* a[3];
  // dirty the heap so that uninitialised state shows up as a difference
  for (int k = 0; k < 3; ++k) {
    void* junk[40];
    for (int j = 0; j < 40; ++j) { size_t s = 8 + 8 * r.below(600); junk[j] = malloc(s); memset(junk[j], (int)r.next(), s); }
    for (int j = 0; j < 40; ++j) free(junk[j]);
    a[k] = m == 'i' ? bwtc::giveModelForIntegerCodes() : m == 'g' ? bwtc::giveModelForGaps() : bwtc::giveProbabilityModel(m);
  }
  size_t n = 1 + r.below(ctx().maxLen);
  unsigned bias = r.below(4097);
  describe(std::string("model ") + m + " n=" + str(n));
  uint64_t fp = m;
  std::set<unsigned> seen;
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 300)) bias = r.chance(1, 3) ? (r.chance(1, 2) ? 0 : 4096) : r.below(4097);
    if (r.chance(1, 2000)) for (int k = 0; k < 3; ++k) a[k]->resetModel();
    Probability p = a[0]->probabilityOfOne();
    Probability p1 = a[1]->probabilityOfOne();
    Probability p2 = a[2]->probabilityOfOne();
    if (p > bwtc::kProbabilityScale) { violation("illegal-probability", std::string("model ") + m + " predicts " + str(p) + " at step " + str(i)); break; }
    if (p != p1 || p != p2) { violation("model-nondeterminism", std::string("model ") + m + ": instances with the same history predict " + str(p) + ", " + str(p1) + ", " + str(p2) + " at step " + str(i)); break; }
    bool b = r.below(4096) < bias;
    bool st = r.chance(1, 9);
    for (int k = 0; k < 3; ++k) { if (st) a[k]->updateState(b); else a[k]->update(b); }
    fp = fp * 1099511628211ull + b;
    seen.insert(p);
  }
  nontrivial(fp);
  count("model_steps", n);
  maxi("distinct_predictions", seen.size());
  for (int k = 0; k < 3; ++k) delete a[k];
}

static void one(uint64_t idx, Rng& r) {
  if (idx % 4 == 3) models(r);
  else coder(r);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, one); }
