// Common machinery of the monitors: case loop, reporting, monitored streams.
#ifndef VERIF_HARNESS_HPP
#define VERIF_HARNESS_HPP
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "gen.hpp"

namespace vh {
using vg::Bytes;
using vg::Rng;

struct Ctx {
  uint64_t seed, from, to;
  int limit;              // seconds per case
  std::string progress;   // current case is written here
  std::string hashes;     // fingerprints of the non-trivial cases go here
  std::string dir;        // scratch directory
  std::string mode;
  uint64_t maxLen;
  std::map<std::string, uint64_t> ctr;
  std::map<std::string, uint64_t> maxi;
  std::set<uint64_t> prints;
  std::vector<std::string> samples;
  uint64_t evals, viols;
  uint64_t cur;
  std::string desc;       // description of the current case
  int progressFd;
};
inline Ctx& ctx() { static Ctx c; return c; }

inline std::string esc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
// A violation: key identifies the kind and place, msg the details.
inline void violation(const std::string& key, const std::string& msg) {
  Ctx& c = ctx();
  ++c.viols;
  printf("VIOL {\"case\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}\n",
         (unsigned long long)c.cur, esc(key).c_str(), esc(msg.substr(0, 600)).c_str(), esc(c.desc).c_str());
  fflush(stdout);
}
inline void count(const char* name, uint64_t n = 1) { ctx().ctr[name] += n; }
inline void maxi(const char* name, uint64_t n) { uint64_t& m = ctx().maxi[name]; if (n > m) m = n; }
inline void nontrivial(uint64_t fp) { ctx().prints.insert(fp); ++ctx().evals; }
// Tells the driver what is being executed, in case the process dies.
inline void describe(const std::string& d) {
  Ctx& c = ctx();
  c.desc = d;
  if (c.progressFd >= 0) {
    char b[512];
    int n = snprintf(b, sizeof b, "%-20llu %.480s", (unsigned long long)c.cur, d.c_str());
    while (n < 511) b[n++] = ' ';
    b[511] = '\n';
    if (pwrite(c.progressFd, b, 512, 0) != 512) {}
  }
}
template <class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }

inline void onAlarm(int) {
  const char m[] = "HANG\n";
  if (write(1, m, sizeof m - 1) < 0) {}
  _exit(77);
}

inline int mainLoop(int argc, char** argv, void (*one)(uint64_t, Rng&)) {
  Ctx& c = ctx();
  c.seed = 1; c.from = 0; c.to = 0; c.limit = 60; c.maxLen = 20000; c.evals = c.viols = 0; c.progressFd = -1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--from") c.from = strtoull(v.c_str(), 0, 10);
    else if (k == "--to") c.to = strtoull(v.c_str(), 0, 10);
    else if (k == "--limit") c.limit = atoi(v.c_str());
    else if (k == "--progress") c.progress = v;
    else if (k == "--hashes") c.hashes = v;
    else if (k == "--dir") c.dir = v;
    else if (k == "--mode") c.mode = v;
    else if (k == "--maxlen") c.maxLen = strtoull(v.c_str(), 0, 10);
    else { fprintf(stderr, "unknown argument %s\n", k.c_str()); return 2; }
  }
  if (!c.progress.empty()) c.progressFd = open(c.progress.c_str(), O_CREAT | O_WRONLY, 0600);
  signal(SIGALRM, onAlarm);
  for (c.cur = c.from; c.cur < c.to; ++c.cur) {
    Rng r(c.seed * 1000003ull + c.cur * 2ull + 1);
    describe("start");
    uint64_t before = c.evals;
    alarm(c.limit);
    one(c.cur, r);
    alarm(0);
    if (c.evals == before) ++c.evals;
    if (c.samples.size() < 3 || (c.cur & 1023) == 7) if (c.samples.size() < 6) c.samples.push_back("case " + str(c.cur) + ": " + c.desc);
  }
  if (!c.hashes.empty()) {
    FILE* f = fopen(c.hashes.c_str(), "wb");
    if (f) {
      std::vector<uint64_t> v(c.prints.begin(), c.prints.end());
      if (!v.empty()) fwrite(&v[0], 8, v.size(), f);
      fclose(f);
    }
  }
  std::ostringstream o;
  o << "STAT {\"evals\":" << c.evals << ",\"viols\":" << c.viols << ",\"ctr\":{";
  bool first = true;
  for (std::map<std::string, uint64_t>::iterator it = c.ctr.begin(); it != c.ctr.end(); ++it, first = false)
    o << (first ? "" : ",") << "\"" << esc(it->first) << "\":" << it->second;
  o << "},\"max\":{";
  first = true;
  for (std::map<std::string, uint64_t>::iterator it = c.maxi.begin(); it != c.maxi.end(); ++it, first = false)
    o << (first ? "" : ",") << "\"" << esc(it->first) << "\":" << it->second;
  o << "},\"samples\":[";
  for (size_t i = 0; i < c.samples.size(); ++i) o << (i ? "," : "") << "\"" << esc(c.samples[i]) << "\"";
  o << "]}";
  printf("%s\n", o.str().c_str());
  fflush(stdout);
  return 0;
}
}  // namespace vh

#ifdef VERIF_STREAMS
#include "Streams.hpp"
namespace vh {
// Output stream into memory that records how it is used.
class MemOut : public bwtc::OutStream {
 public:
  Bytes& data;
  std::vector<std::pair<long, uint64_t> > patches;  // write48bits(position, value)
  std::vector<long> positions;                      // getPos results
  std::vector<std::string> faults;
  uint64_t writeCalls;
  explicit MemOut(Bytes& d) : data(d), writeCalls(0) {}
  virtual ~MemOut() {}
  virtual void writeByte(bwtc::byte b) { data.push_back(b); ++writeCalls; }
  virtual void writeBlock(const bwtc::byte* b, const bwtc::byte* e) {
    ++writeCalls;
    if (e < b) { faults.push_back("writeBlock with end before begin"); return; }
    data.insert(data.end(), b, e);
  }
  virtual long int getPos() { positions.push_back((long)data.size()); return (long)data.size(); }
  virtual void write48bits(bwtc::uint64 v, long int pos) {
    patches.push_back(std::make_pair((long)pos, (uint64_t)v));
    if (v >> 48) faults.push_back("48-bit field given a wider value");
    if (pos < 0 || (size_t)pos + 6 > data.size()) { faults.push_back("48-bit field written outside the data"); return; }
    for (int i = 0; i < 6; ++i) data[pos + i] = (bwtc::byte)(v >> (8 * (5 - i)));
  }
  virtual void flush() {}
};
// The monitored streams are owned by the (de)compressor; what they saw is kept
// in a log that outlives them.
struct InLog { uint64_t overrun, consumed, bits, bytes, blocks, f48; InLog() : overrun(0), consumed(0), bits(0), bytes(0), blocks(0), f48(0) {} };
class MemIn : public bwtc::InStream {
 public:
  const Bytes& data;
  InLog& log;
  size_t pos;
  unsigned bit;
  size_t chunk;  // 0, or the maximal number of bytes one readBlock call hands out
  MemIn(const Bytes& d, InLog& l) : data(d), log(l), pos(0), bit(0), chunk(0) {}
  virtual ~MemIn() {}
  unsigned at(size_t p) { if (p < data.size()) return data[p]; ++log.overrun; if (log.overrun > 1000000) { violation("overrun-endless", "reader keeps reading past the end of its input"); _exit(78); } return 0xff; }
  virtual size_t readBlock(bwtc::byte* to, size_t n) {
    ++log.blocks;
    size_t left = data.size() - std::min(pos, data.size());
    if (n > left) n = left;
    if (n) memcpy(to, &data[pos], n);
    pos += n;
    log.consumed = pos;
    return n;
  }
  virtual bool readBit() {
    ++log.bits;
    bool b = (at(pos) >> (7 - bit)) & 1;
    if (++bit == 8) { bit = 0; ++pos; }
    log.consumed = pos + (bit ? 1 : 0);
    return b;
  }
  virtual bwtc::byte readByte() {  // may be called in the middle of a byte
    ++log.bytes;
    unsigned v;
    if (bit == 0) v = at(pos);
    else v = ((at(pos) << 8 | at(pos + 1)) >> (8 - bit)) & 0xff;
    ++pos;
    log.consumed = pos + (bit ? 1 : 0);
    return (bwtc::byte)v;
  }
  virtual void flushBuffer() { if (bit) { bit = 0; ++pos; } log.consumed = pos; }
  virtual bwtc::uint64 read48bits() {
    ++log.f48;
    bwtc::uint64 r = 0;
    for (int i = 0; i < 6; ++i) r = r << 8 | at(pos++);
    log.consumed = pos;
    return r;
  }
  virtual bool compressedDataEnding() { return pos >= data.size(); }
};
}  // namespace vh
#endif
#endif
