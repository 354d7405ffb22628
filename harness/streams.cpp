// Model-based monitor of the file streams.
#include "harness.hpp"
#include <sys/stat.h>
#include <pthread.h>
#include "Streams.hpp"
namespace bwtc { int verbosity = 0; }
using namespace vh;

static Bytes slurp(const std::string& p) {
  Bytes b;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return b;
  unsigned char t[65536]; size_t n;
  while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n);
  fclose(f);
  return b;
}
static void spit(const std::string& p, const Bytes& b) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || (b.size() && fwrite(&b[0], 1, b.size(), f) != b.size()) || fclose(f)) { perror(p.c_str()); _exit(2); }
}
struct Reader { std::string path; Bytes got; };
static void* readFifo(void* a) { Reader* r = (Reader*)a; r->got = slurp(r->path); return 0; }
struct Writer { std::string path; Bytes data; size_t piece; };
static void* writeFifo(void* a) {
  Writer* w = (Writer*)a;
  int fd = open(w->path.c_str(), O_WRONLY);
  for (size_t p = 0; p < w->data.size();) {
    ssize_t n = write(fd, &w->data[p], std::min(w->piece, w->data.size() - p));
    if (n <= 0) break;
    p += n;
  }
  close(fd);
  return 0;
}
static size_t blockLen(Rng& r) {
  static const size_t s[] = {0, 1, 2, 5, 6, 7, 100, 4095, 4096, 65529, 65530, 65531, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073};
  return r.chance(1, 3) ? r.pick(s) : r.below(r.chance(1, 6) ? 200000 : 500);
}

static void writing(Rng& r) {
  bool fifo = r.chance(1, 3);
  std::string path = ctx().dir + "/out";
  unlink(path.c_str());
  if (fifo) { if (mkfifo(path.c_str(), 0600)) _exit(2); }
  else if (r.chance(1, 2)) spit(path, Bytes(r.below(300000), 0x77));  // existing longer file
  Reader rd; rd.path = path;
  pthread_t th;
  if (fifo) pthread_create(&th, 0, readFifo, &rd);
  Bytes model;
  std::string trace;
  unsigned ops = 1 + r.below(40);
  size_t lastPos = 0; bool have = false;
  std::vector<size_t> fields;   // positions of reserved six-byte fields
  describe(std::string("writing ") + (fifo ? "pipe" : "file") + " ops=" + str(ops));
  {
    bwtc::RawOutStream out(path);
    for (unsigned i = 0; i < ops; ++i) {
      switch (r.below(6)) {
        case 0: { size_t n = r.chance(1, 4) ? blockLen(r) : 1 + r.below(20); unsigned char x = (unsigned char)r.next(); for (size_t k = 0; k < n; ++k) { out.writeByte(x); model.push_back(x); x = x * 5 + 1; } trace += "b" + str(n) + " "; break; }
        case 1: case 2: { size_t n = blockLen(r); Bytes b(n + 1); for (size_t k = 0; k < n; ++k) b[k] = (unsigned char)(r.s >> (k % 40)) + k; out.writeBlock(&b[0], &b[0] + n); model.insert(model.end(), b.begin(), b.begin() + n); trace += "B" + str(n) + " "; break; }
        case 3: { long p = out.getPos(); if (p != (long)model.size()) violation(std::string("position ") + (fifo ? "pipe" : "file"), "getPos " + str(p) + " after " + str(model.size()) + " bytes: " + trace); lastPos = model.size(); have = true;
                  for (int k = 0; k < 6; ++k) { out.writeByte(0); model.push_back(0); } if (fifo) fields.clear(); fields.push_back(lastPos); trace += "P "; break; }
        case 4: if (!fields.empty()) {
                  size_t p = fields[r.below(fields.size())];
                  uint64_t v = r.chance(1, 4) ? 0xFFFFFFFFFFFFull : r.next() & 0xFFFFFFFFFFFFull;
                  out.write48bits(v, (long)p);
                  for (int k = 0; k < 6; ++k) model[p + k] = (unsigned char)(v >> (8 * (5 - k)));
                  trace += "W@" + str(p) + " "; count("fields_overwritten");
                } break;
        default: out.flush(); trace += "F "; break;
      }
    }
    (void)have;
  }
  if (fifo) pthread_join(th, 0);
  Bytes got = fifo ? rd.got : slurp(path);
  describe(std::string("writing ") + (fifo ? "pipe " : "file ") + trace.substr(0, 300));
  nontrivial(vg::hash64(model) + vg::hash64((const unsigned char*)trace.data(), trace.size()));
  if (got != model) {
    size_t p = 0;
    while (p < got.size() && p < model.size() && got[p] == model[p]) ++p;
    violation(std::string("written-data ") + (fifo ? "pipe" : "file"), "file has " + str(got.size()) + " bytes instead of " + str(model.size()) + ", first difference at " + str(p));
  }
  unlink(path.c_str());
  count("write_operations", ops);
  count("bytes_written", model.size());
}

static void reading(Rng& r) {
  std::string path = ctx().dir + "/in";
  unlink(path.c_str());
  size_t n = r.chance(1, 2) ? 65536 * r.below(4) + r.below(9) : r.below(r.chance(1, 2) ? 200 : 300000);
  if (n > 4 && r.chance(1, 3)) n -= 4;
  Bytes d(n);
  for (size_t i = 0; i < n; ++i) d[i] = r.chance(1, 6) ? 0xff : (unsigned char)r.next();
  bool fifo = r.chance(1, 3);
  describe(std::string("reading ") + (fifo ? "pipe" : "file") + " n=" + str(n) + " h=" + str(vg::hash64(d)));
  pthread_t th;
  Writer w; w.path = path; w.data = d; w.piece = 1 + r.below(r.chance(1, 2) ? 70000 : 3000);
  if (fifo) { if (mkfifo(path.c_str(), 0600)) _exit(2); signal(SIGPIPE, SIG_IGN); pthread_create(&th, 0, writeFifo, &w); }
  else spit(path, d);
  std::string trace;
  uint64_t bit = 0, total = (uint64_t)n * 8;
  unsigned ops = 0;
  {
    bwtc::RawInStream in(path);
    bool bad = false, finished = false;
    while (!finished && !bad) {
      ++ops;
      unsigned op = r.below(10);
      if (bit == total) { op = 9; }
      switch (op) {
        case 0: case 1: {  // single bits
          size_t k = 1 + r.below(r.chance(1, 10) ? 3000 : 12);
          for (; k && bit < total && !bad; --k, ++bit) {
            bool want = (d[bit >> 3] >> (7 - (bit & 7))) & 1;
            if (in.readBit() != want) { violation("read-bit", "bit " + str(bit) + " of " + str(total) + " wrong, after " + trace); bad = true; }
          }
          trace += "b";
          break;
        }
        case 2: case 3: {  // bytes, also unaligned
          size_t k = 1 + r.below(r.chance(1, 10) ? 20000 : 20);
          for (; k && bit + 8 <= total && !bad; --k, bit += 8) {
            unsigned want = d[bit >> 3];
            if (bit & 7) want = ((want << 8 | d[(bit >> 3) + 1]) >> (8 - (bit & 7))) & 0xff;
            unsigned got = in.readByte();
            if (got != want) { violation("read-byte", "byte at bit " + str(bit) + " is " + str(got) + ", should be " + str(want)); bad = true; }
          }
          trace += "B";
          break;
        }
        case 4: { in.flushBuffer(); bit = (bit + 7) & ~7ull; trace += "F"; break; }
        case 5: if ((bit & 7) == 0 && bit + 48 <= total) {
          uint64_t want = 0;
          for (int k = 0; k < 6; ++k) want = want << 8 | d[(bit >> 3) + k];
          uint64_t got = in.read48bits();
          if (got != want) { violation("read-48", "field at byte " + str(bit >> 3) + " is " + str(got) + ", should be " + str(want)); bad = true; }
          bit += 48; trace += "4";
          break;
        }  // fall through
        case 6: case 7: case 9: if ((bit & 7) == 0) {
          size_t ask = op == 9 ? (r.chance(1, 2) ? 1 : 70000) : blockLen(r), left = n - (size_t)(bit >> 3), want = std::min(ask, left);
          Bytes buf(ask + 8, 0x5C);
          size_t got = in.readBlock(&buf[0], ask);
          if (got != want) { violation("read-block-size", "got " + str(got) + " of " + str(want) + " bytes at " + str(bit >> 3) + " of " + str(n)); bad = true; break; }
          if (got && memcmp(&buf[0], &d[bit >> 3], got)) { violation("read-block-data", "wrong bytes in block at " + str(bit >> 3)); bad = true; break; }
          for (size_t k = got; k < buf.size(); ++k) if (buf[k] != 0x5C) { violation("read-block-outside", "bytes behind the block changed"); bad = true; break; }
          bit += (uint64_t)got * 8; trace += "K";
          if (op == 9 && bit == total && left == 0) finished = true;
          break;
        } else if (op == 9) { in.flushBuffer(); bit = (bit + 7) & ~7ull; break; }  // fall through
        default: {
          // let the stream go on in large steps so that boundaries are met
          if ((bit & 7) == 0) {
            size_t target = (size_t)(((bit >> 3) / 65536 + 1) * 65536);
            if (target > n) target = n;
            size_t ask = target - (size_t)(bit >> 3);
            if (ask > 4 && r.chance(2, 3)) ask -= r.below(5);
            Bytes buf(ask + 1);
            size_t got = in.readBlock(&buf[0], ask);
            if (got != ask || (got && memcmp(&buf[0], &d[bit >> 3], got))) { violation("read-block-data", "wrong at " + str(bit >> 3)); bad = true; }
            bit += (uint64_t)got * 8; trace += "S";
          }
        }
      }
      if (trace.size() > 200) trace.erase(0, 100);
    }
  }
  if (fifo) pthread_join(th, 0);
  nontrivial(vg::hash64(d) * 3 + ops);
  unlink(path.c_str());
  count("read_operations", ops);
  count("bytes_read", n);
}
static void one(uint64_t idx, Rng& r) { if (idx & 1) writing(r); else reading(r); }
int main(int argc, char** argv) { return mainLoop(argc, argv, one); }
