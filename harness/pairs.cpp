// Monitors pair replacement: an independent reading of the serialised grammar
// and an independent expansion by the definition decide.
#define VERIF_STREAMS
#include "harness.hpp"
#include "PrecompressorBlock.hpp"
#include "preprocessors/Grammar.hpp"
#include "preprocessors/PairReplacer.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "preprocessors/Precompressor.hpp"
namespace bwtc { int verbosity = 0; }
using namespace vh;
using namespace bwtc;

// ---- independent grammar reader and expander -------------------------------
struct G {
  struct R { bool large; unsigned a, b; Bytes rhs; };
  std::vector<R> rules;
  Bytes specials;
  std::vector<std::pair<unsigned, unsigned char> > freed;  // pair -> byte
};
struct Parse {
  const Bytes& d; size_t p; bool bad;
  explicit Parse(const Bytes& x) : d(x), p(0), bad(false) {}
  unsigned u8() { if (p >= d.size()) { bad = true; return 0; } return d[p++]; }
  uint64_t packed() { uint64_t v = 0; unsigned s = 0, b; do { b = u8(); v |= (uint64_t)(b & 127) << s; s += 7; } while ((b & 128) && !bad && s < 63); return v; }
};
// Special pairs are numbered in square shells: number k*k is (k,k), the next k
// numbers are (0,k)..(k-1,k), the next k are (k,0)..(k,k-1).
static unsigned pairAt(const Bytes& sp, unsigned ord, bool& bad) {
  unsigned k = 0;
  while ((k + 1) * (k + 1) <= ord) ++k;
  if (k >= sp.size()) { bad = true; return 0; }
  unsigned off = ord - k * k;
  unsigned x, y;
  if (off == 0) { x = y = k; }
  else if (off <= k) { x = off - 1; y = k; }
  else { x = k; y = off - k - 1; }
  return (unsigned)sp[x] << 8 | sp[y];
}
static bool parseGrammar(Parse& in, G& g) {
  uint64_t n = in.packed();
  if (n == 0 || in.bad) return !in.bad;
  if (n > 70000) return false;
  unsigned ns = in.u8();
  for (unsigned i = 0; i < ns; ++i) g.specials.push_back((unsigned char)in.u8());
  std::vector<bool> large(n);
  for (size_t i = 0; i < n; i += 8) { unsigned b = in.u8(); for (size_t j = 0; j < 8 && i + j < n; ++j) large[i + j] = (b >> (7 - j)) & 1; }
  std::set<unsigned> usedPairs;
  for (size_t i = 0; i < n; ++i) {
    G::R r; r.large = large[i]; r.a = in.u8(); r.b = 0;
    if (r.large) { r.b = in.u8(); usedPairs.insert(r.a << 8 | r.b); }
    g.rules.push_back(r);
  }
  unsigned nf = in.u8();
  unsigned ord = 0;
  // freed symbols take the pairs that are neither (s,s) nor variables, in order
  std::set<unsigned> self;
  for (unsigned i = 0; i < ns; ++i) self.insert((unsigned)g.specials[i] << 8 | g.specials[i]);
  for (unsigned i = 0; i < ns; ++i) g.freed.push_back(std::make_pair((unsigned)g.specials[i] << 8 | g.specials[i], g.specials[i]));
  for (unsigned i = 0; i < nf; ++i) {
    unsigned char s = (unsigned char)in.u8();
    bool bad = false;
    unsigned p;
    do { p = pairAt(g.specials, ord++, bad); } while (!bad && (self.count(p) || usedPairs.count(p)));
    if (bad) return false;
    g.freed.push_back(std::make_pair(p, s));
  }
  std::vector<unsigned> len(n);
  for (size_t i = 0; i < n; i += 4) { unsigned b = in.u8(); for (size_t j = 0; j < 4 && i + j < n; ++j) len[i + j] = 2 + ((b >> (6 - 2 * j)) & 3); }
  for (size_t i = 0; i < n; ++i) for (unsigned j = 0; j < len[i]; ++j) g.rules[i].rhs.push_back((unsigned char)in.u8());
  return !in.bad;
}
static bool expand(const G& g, const Bytes& data, Bytes& out) {
  std::vector<Bytes> single(256);
  std::vector<bool> special(256, false);
  for (int i = 0; i < 256; ++i) single[i].assign(1, (unsigned char)i);
  for (size_t i = 0; i < g.specials.size(); ++i) special[g.specials[i]] = true;
  std::map<unsigned, Bytes> pairs;
  for (size_t i = 0; i < g.freed.size(); ++i) pairs[g.freed[i].first] = Bytes(1, g.freed[i].second);
  for (size_t k = 0; k <= g.rules.size(); ++k) {
    const Bytes& src = k < g.rules.size() ? g.rules[k].rhs : data;
    Bytes t;
    for (size_t i = 0; i < src.size(); ++i) {
      if (special[src[i]]) {
        if (i + 1 >= src.size()) return false;
        std::map<unsigned, Bytes>::iterator it = pairs.find((unsigned)src[i] << 8 | src[i + 1]);
        if (it == pairs.end()) return false;
        t.insert(t.end(), it->second.begin(), it->second.end());
        ++i;
      } else t.insert(t.end(), single[src[i]].begin(), single[src[i]].end());
    }
    if (k == g.rules.size()) out.swap(t);
    else if (g.rules[k].large) pairs[g.rules[k].a << 8 | g.rules[k].b].swap(t);
    else single[g.rules[k].a].swap(t);
  }
  return true;
}
static std::string diff(const Bytes& a, const Bytes& b) {
  size_t p = 0;
  while (p < a.size() && p < b.size() && a[p] == b[p]) ++p;
  return str(a.size()) + " against " + str(b.size()) + " bytes, first difference at " + str(p);
}
static void compareGrammars(const Grammar& a, const Grammar& b) {
  if (a.numberOfRules() != b.numberOfRules()) { violation("grammar-rules", str(b.numberOfRules()) + " rules read, " + str(a.numberOfRules()) + " written"); return; }
  if (a.numberOfRules() == 0) return;
  for (size_t i = 0; i < a.numberOfRules(); ++i) {
    Grammar::Rule x = a.getRule(i), y = b.getRule(i);
    if (x.variable() != y.variable() || x.isLarge() != y.isLarge() || x.length() != y.length() || !std::equal(x.begin(), x.end(), y.begin())) {
      violation("grammar-rule-differs", "rule " + str(i) + " of " + str(a.numberOfRules()) + " is not the one written");
      return;
    }
  }
  if (a.numberOfSpecialSymbols() != b.numberOfSpecialSymbols()) violation("grammar-specials", str(b.numberOfSpecialSymbols()) + " escape symbols read, " + str(a.numberOfSpecialSymbols()) + " written");
  for (int c = 0; c < 256; ++c) if (a.isSpecial((byte)c) != b.isSpecial((byte)c)) { violation("grammar-specials", "byte " + str(c)); break; }
  std::vector<std::pair<uint16, byte> > fa, fb;
  a.freedSymbols(fa); b.freedSymbols(fb);
  if (fa != fb) {
    size_t p = 0;
    while (p < fa.size() && p < fb.size() && fa[p] == fb[p]) ++p;
    violation("grammar-freed", "freed symbols differ: " + str(fa.size()) + " written, " + str(fb.size()) + " read, first difference at " + str(p));
  }
}

// One replacement round both in place and into another buffer.
static void bothWays(const Bytes& t) {
  if (t.size() < 3) return;
  Grammar g1, g2;
  PairReplacer *a = new PairReplacer(g1, false), *b = new PairReplacer(g2, false);
  Bytes x(t), y(t.size() + 1 + 16, 0xA5);
  x.push_back(0);
  a->analyseData(&x[0], t.size()); a->finishAnalysation();
  size_t r1 = a->decideReplacements();
  b->analyseData(&t[0], t.size()); b->finishAnalysation();
  size_t r2 = b->decideReplacements();
  size_t n1 = a->writeReplacedVersion(&x[0], t.size());
  size_t n2 = b->writeReplacedVersion(&t[0], t.size(), &y[0]);
  if (r1 != r2) violation("replacement-decision", "differs between two runs");
  if (n1 != n2 || (n1 <= x.size() && n2 <= y.size() && !std::equal(x.begin(), x.begin() + n1, y.begin()))) violation("in-place-differs", "in place " + str(n1) + " bytes, into a buffer " + str(n2) + " bytes");
  if (n1 > t.size()) violation("round-expands", str(t.size()) + " to " + str(n1));
  if (n2 > t.size()) violation("round-expands", str(t.size()) + " to " + str(n2));
  for (size_t i = t.size() + 1; i < y.size(); ++i) if (y[i] != 0xA5) { violation("replacement-writes-outside", "beyond the length of the source"); break; }
  delete a; delete b;
  count("rounds_both_ways");
}

#ifndef VERIF_MINIMAL
// The grammar alone, updated round by round the way the replacer does it, with
// exactly as many rules as wanted; a model of the updates says what the
// serialised form has to contain.
static void api(uint64_t idx, Rng& r) {
  static const unsigned edges[] = {1, 2, 3, 4, 7, 8, 9, 126, 127, 128, 129, 240, 253, 254, 255, 256, 257, 258, 260, 263, 264, 265, 384, 511, 512, 513, 640, 768, 1023, 1024, 1025};
  const unsigned nEdges = sizeof edges / sizeof *edges;
  const unsigned want = idx % 3 == 0 ? edges[(idx / 3) % nEdges] : 1 + r.below(r.chance(1, 2) ? 40 : 700);
  struct M { bool large; unsigned lhs; Bytes rhs; };
  std::vector<M> model;
  std::vector<std::pair<unsigned, unsigned char> > freedModel;
  Grammar g;
  Bytes specials;
  bool special[256] = {false}, variable[256] = {false}, unused[256];
  unsigned pairsUsed = 0;
  Bytes order;
  for (int i = 0; i < 256; ++i) { order.push_back((unsigned char)i); }
  for (int i = 255; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
  const unsigned common = order[0], nUnused = r.chance(1, 3) ? 0 : r.below(100);
  for (int i = 0; i < 256; ++i) unused[i] = false;
  for (unsigned i = 0; i < nUnused; ++i) unused[order[1 + i]] = true;
  const unsigned perRound = 1 + (r.chance(1, 2) ? r.below(200) : r.below(20));
  unsigned rounds = 0;
  describe("grammar of " + str(want) + " rules, " + str(nUnused) + " unused symbols, " + str(perRound) + " per round");
  nontrivial(idx * 1000003 + want);
  while (model.size() < want && rounds < 400) {
    ++rounds;
    unsigned k = std::min<unsigned>(perRound, want - (unsigned)model.size());
    // left sides: first symbols that are freed, then ones nobody used
    Bytes frees, cand;
    for (int i = 255; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
    for (int i = 0; i < 256; ++i) {
      unsigned c = order[i];
      if (c == common || special[c]) continue;
      if (unused[c]) { if (frees.size() < k && !r.chance(1, 4)) frees.push_back((unsigned char)c); }
      else cand.push_back((unsigned char)c);
    }
    Bytes freed, news;
    size_t at = 0;
    unsigned left = (unsigned)(specials.size() * specials.size()) - pairsUsed, sp = (unsigned)specials.size(), used = pairsUsed;
    while (freed.size() + frees.size() < k) {
      unsigned need = 0, s2 = sp, u2 = used;
      if (left == 0) { do { ++need; ++s2; ++u2; } while (s2 * s2 == u2); }
      if (at + need + 1 + 8 > cand.size()) break;
      for (unsigned i = 0; i < need; ++i) news.push_back(cand[at++]);
      sp = s2; used = u2;
      freed.push_back(cand[at++]);
      ++used;
      left = sp * sp - used;
    }
    Bytes vars(freed);
    vars.insert(vars.end(), frees.begin(), frees.end());
    if (vars.empty()) break;
    // right sides: symbols in use, first ones and second ones apart
    Bytes fst, snd;
    for (int i = 0; i < 256; ++i) if (!special[i] && !unused[i]) (r.chance(1, 2) ? fst : snd).push_back((unsigned char)i);
    if (fst.empty() || snd.empty()) break;
    std::set<unsigned> pairs;
    while (pairs.size() < vars.size() && pairs.size() < fst.size() * snd.size() / 2 + 1) pairs.insert((unsigned)fst[r.below(fst.size())] << 8 | snd[r.below(snd.size())]);
    if (pairs.size() < vars.size()) break;
    std::vector<unsigned> pv(pairs.begin(), pairs.end());
    for (size_t i = pv.size() - 1; i > 0; --i) std::swap(pv[i], pv[r.below(i + 1)]);
    g.beginUpdatingRules();
    const size_t old = model.size();
    for (size_t i = 0; i < vars.size(); ++i) {
      g.addRule(vars[i], (byte)(pv[i] >> 8), (byte)(pv[i] & 255));
      M m; m.large = false; m.lhs = vars[i]; m.rhs.push_back((unsigned char)(pv[i] >> 8)); m.rhs.push_back((unsigned char)(pv[i] & 255));
      model.push_back(m);
    }
    std::vector<uint16> next;
    g.expandAlphabet(freed, news, next);
    g.endUpdatingRules(vars);
    // the model
    std::map<unsigned, unsigned> esc;
    size_t ni = 0;
    bool bad = false;
    for (size_t i = 0; i < freed.size();) {
      if (specials.size() * specials.size() == pairsUsed) { unsigned s = news[ni++]; specials.push_back((unsigned char)s); special[s] = true; esc[s] = s << 8 | s; ++pairsUsed; }
      else {
        unsigned p = pairAt(specials, pairsUsed++, bad);
        esc[freed[i]] = p;
        if (next.size() <= i || next[i] != p) { violation("escape-pair", "freed symbol " + str(i) + " of round " + str(rounds) + " gets another pair than its number says"); return; }
        if (!variable[freed[i]]) freedModel.push_back(std::make_pair(p, freed[i]));
        ++i;
      }
    }
    for (size_t i = 0; i < vars.size(); ++i) { variable[vars[i]] = true; unused[vars[i]] = false; }
    for (size_t i = 0; i < model.size(); ++i) {
      if (i < old && !model[i].large && esc.count(model[i].lhs)) { model[i].lhs = esc[model[i].lhs]; model[i].large = true; }
      Bytes t;
      for (size_t j = 0; j < model[i].rhs.size(); ++j) {
        std::map<unsigned, unsigned>::iterator it = esc.find(model[i].rhs[j]);
        if (it == esc.end()) t.push_back(model[i].rhs[j]);
        else { t.push_back((unsigned char)(it->second >> 8)); t.push_back((unsigned char)(it->second & 255)); }
      }
      model[i].rhs.swap(t);
    }
  }
  if (model.empty()) return;
  count("api_grammars");
  count("api_rules", model.size());
  maxi("api_rules", model.size());
  maxi("api_special_symbols", specials.size());
  maxi("api_freed_symbols", freedModel.size());
  Bytes file;
  {
    MemOut mo(file);
    size_t n = g.writeGrammar(&mo);
    if (n != file.size()) violation("grammar-size", "reported " + str(n) + ", wrote " + str(file.size()));
  }
  Parse p(file);
  G x;
  if (!parseGrammar(p, x)) { violation("grammar-unreadable", "serialised grammar does not follow the format"); return; }
  if (p.p != file.size()) violation("grammar-length", str(file.size()) + " bytes written, " + str(p.p) + " make up the grammar");
  if (x.specials != specials) violation("grammar-specials", "escape symbols differ from the ones chosen");
  if (x.rules.size() != model.size()) { violation("grammar-rules", str(x.rules.size()) + " rules, " + str(model.size()) + " added"); return; }
  for (size_t i = 0; i < model.size(); ++i) {
    unsigned lhs = x.rules[i].large ? x.rules[i].a << 8 | x.rules[i].b : x.rules[i].a;
    if (x.rules[i].large != model[i].large || lhs != model[i].lhs || x.rules[i].rhs != model[i].rhs) { violation("grammar-rule-differs", "rule " + str(i) + " of " + str(model.size()) + " is not the one added"); break; }
  }
  std::vector<std::pair<unsigned, unsigned char> > fr(x.freed.begin() + x.specials.size(), x.freed.end());
  if (fr != freedModel) violation("grammar-freed", str(fr.size()) + " freed symbols written, " + str(freedModel.size()) + " freed");
  file.push_back(0x5a);
  InLog fl;
  MemIn fi(file, fl);
  Grammar copy;
  copy.readGrammar(&fi);
  if (fl.consumed != file.size() - 1 || fl.overrun) violation("grammar-consumption", "read " + str(fl.consumed) + " of " + str(file.size() - 1) + " bytes");
  compareGrammars(g, copy);
}
#endif

static void one(uint64_t idx, Rng& r) {
#ifndef VERIF_MINIMAL
  if (ctx().mode == "api") { api(idx, r); return; }
#else
  if (ctx().mode == "api") return;
#endif
  Bytes in;
  std::string fam;
  if (ctx().mode == "exh") {
    // strings over a small alphabet in length order, at the start of a text
    // that already uses every other byte (idx odd) or alone (idx even)
    uint64_t i = idx / 2, c = 3; size_t n = 1;
    while (i >= c) { i -= c; ++n; c *= 3; }
    for (size_t k = 0; k < n; ++k) { in.push_back("\x00\x61\xff"[i % 3]); i /= 3; }
    fam = "exhaustive";
    if (idx & 1) { Bytes w = in; for (int k = 0; k < 40; ++k) in.insert(in.end(), w.begin(), w.end()); for (int k = 0; k < 256; ++k) in.push_back((unsigned char)k); in.insert(in.end(), w.begin(), w.end()); fam = "exhaustive+all"; }
  } else if (ctx().mode == "max") {
    in = vg::grammarHuge(r, ctx().maxLen / 3 + r.below(ctx().maxLen)); fam = "grammarHuge";
  } else if (ctx().mode == "front") {
    in = vg::expandFirst(r, ctx().maxLen / 4 + r.below(ctx().maxLen)); fam = "expandFirst";
  } else if (ctx().mode == "many") {
    if (r.chance(1, 2)) { in = vg::tightPairs(r, 2000 + (r.chance(1, 3) ? r.below(2 * ctx().maxLen) : ctx().maxLen + r.below(2 * ctx().maxLen))); fam = "tightPairs"; }
    else { in = vg::grammarHeavy(r, 2000 + r.below(ctx().maxLen)); fam = "grammarHeavy"; }
  } else if (r.chance(1, 2)) {
    size_t n = vg::pickLen(r, ctx().maxLen);
    switch (r.below(3)) { case 0: in = vg::pairHeavy(r, n); fam = "pairHeavy"; break; case 1: in = vg::samePairs(r, n); fam = "samePairs"; break; default: in = vg::copies(r, n); fam = "copies"; }
  } else in = vg::any(r, ctx().maxLen, &fam);
  if (in.empty()) return;
  unsigned maxRounds = ctx().mode == "exh" ? 4 : 1 + r.below(r.chance(1, 4) ? 9 : 4);
  describe(fam + " n=" + str(in.size()) + " h=" + str(vg::hash64(in)) + " rounds=" + str(maxRounds));
  if (in.size() > 2) nontrivial(vg::hash64(in) + maxRounds);
  bothWays(in);
  size_t prev = in.size();
  for (unsigned k = 0; k <= maxRounds; ++k) {
    if (k && k < maxRounds && !r.chance(1, 2)) continue;
    InLog il;
    MemIn mi(in, il);
    Precompressor pc(std::string(k, 'p'));
    PrecompressorBlock* b = pc.readBlock(in.size() + r.below(3), &mi);
    if (b->originalSize() != in.size()) violation("original-size", str(b->originalSize()) + " instead of " + str(in.size()));
    if (b->size() > prev) violation("block-expands", str(prev) + " bytes after fewer rounds, " + str(b->size()) + " after " + str(k));
    prev = b->size();
    if (k == 0 && (b->size() != in.size() || b->grammar().numberOfRules() != 0 || !std::equal(in.begin(), in.end(), b->begin()))) violation("no-rounds-not-identity", "block changed without any round");
    Bytes data(b->begin(), b->begin() + b->size());
    // serialise
    Bytes file;
    size_t reported;
    {
      MemOut mo(file);
      reported = b->writeBlockHeader(&mo, PRECOMP_COMPRESSED_SIZE);
      if (reported != file.size()) violation("header-size", "reported " + str(reported) + ", wrote " + str(file.size()));
      mo.writeBlock(b->begin(), b->end());
    }
    count("grammar_rules", b->grammar().numberOfRules());
    maxi("rules", b->grammar().numberOfRules());
    maxi("special_symbols", b->grammar().numberOfSpecialSymbols());
    maxi("serialised_beyond_original", (file.size() > in.size() ? file.size() - in.size() : 0));
    // independent reading
    {
      Parse p(file);
      uint64_t sz = p.packed();
      G g;
      if (sz != data.size()) violation("stated-size", "header says " + str(sz) + ", block has " + str(data.size()));
      bool ok = parseGrammar(p, g);
      if (!ok) violation("grammar-unreadable", "serialised grammar does not follow the format");
      else {
        Bytes body(file.begin() + p.p, file.end()), out;
        if (body != data) violation("grammar-length", "data does not follow the grammar");
        else if (!expand(g, body, out)) violation("grammar-not-self-contained", "an escape pair without meaning, or one cut off at the end");
        else if (out != in) violation("expansion-differs", diff(out, in));
        // every rule is used with distinct left sides, escapes are not variables
        std::set<unsigned> lhs;
        for (size_t i = 0; i < g.rules.size(); ++i) if (!lhs.insert(g.rules[i].large ? 65536 + (g.rules[i].a << 8 | g.rules[i].b) : g.rules[i].a).second) { violation("grammar-ambiguous", "two rules for one variable"); break; }
        count("expansions_checked");
        if (!g.specials.empty()) count("blocks_with_escapes");
        if (g.rules.size()) count("blocks_with_rules");
      }
    }
    // the program's own reading
    {
      InLog fl;
      MemIn fi(file, fl);
      PrecompressorBlock* q = PrecompressorBlock::readBlockHeader(&fi, PRECOMP_COMPRESSED_SIZE);
      if (fl.consumed != file.size() || fl.overrun) violation("grammar-consumption", "read " + str(fl.consumed) + " of " + str(file.size()) + " bytes");
      if (q->size() != data.size() || !std::equal(data.begin(), data.end(), q->begin())) violation("block-data", "read back differently");
      compareGrammars(b->grammar(), q->grammar());
      Postprocessor* pp = new Postprocessor(false, q->grammar());
      Bytes out;
      {
        MemOut mo(out);
        size_t n = pp->uncompress(q->begin(), q->size(), &mo);
        if (n != out.size()) violation("uncompressed-size", "reported " + str(n) + ", wrote " + str(out.size()));
        for (size_t f = 0; f < mo.faults.size(); ++f) violation("stream-misuse", mo.faults[f]);
      }
      if (out != in) violation("postprocessing-differs", diff(out, in));
      std::vector<byte> vec;
      pp->uncompress(q->begin(), q->size(), vec);
      if (vec != in) violation("postprocessing-vector-differs", diff(vec, in));
      delete pp;
      delete q;
    }
    delete b;
    count("blocks");
  }
}
int main(int argc, char** argv) { return mainLoop(argc, argv, one); }
