// Writes generator inputs into files: gentool SEED FROM TO MAXLEN DIR
// (does not depend on the code under test).
#include <stdio.h>
#include <stdlib.h>
#include "gen.hpp"
int main(int argc, char** argv) {
  if (argc != 6) return 2;
  unsigned long seed = strtoul(argv[1], 0, 10), from = strtoul(argv[2], 0, 10), to = strtoul(argv[3], 0, 10), maxLen = strtoul(argv[4], 0, 10);
  for (unsigned long i = from; i < to; ++i) {
    vg::Rng r(seed * 7000003ull + i * 2 + 1);
    std::string fam;
    bool heavy = maxLen >= 60000 && i % 10 == 9;
    bool most = heavy && maxLen >= 200000 && i % 20 == 19;
    vg::Bytes v = most ? vg::grammarHuge(r, maxLen / 2 + r.below(maxLen / 2)) : heavy ? vg::grammarHeavy(r, 2000 + r.below(maxLen)) : vg::any(r, maxLen, &fam);
    if (heavy) fam = most ? "grammarHuge" : "grammarHeavy";
    std::string p = std::string(argv[5]) + "/" + std::to_string(i);
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) return 2;
    if (!v.empty() && fwrite(&v[0], 1, v.size(), f) != v.size()) return 2;
    if (fclose(f)) return 2;
    printf("%lu %s %zu %llu\n", i, fam.c_str(), v.size(), (unsigned long long)vg::hash64(v));
  }
  return 0;
}
