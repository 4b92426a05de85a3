// C21: inflate and deflate, checksums.
#include "vh.h"
#include <memory>
#include "deflategen.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/array_p.h>
#include <blend2d/compression/deflatedecoder_p.h>
#include <blend2d/compression/deflatedecoderfast_p.h>
#include <blend2d/compression/deflateencoder_p.h>
#include <blend2d/compression/checksum_p.h>
using namespace vh; using namespace bl::Compression; using namespace bl::Compression::Deflate;
typedef std::vector<uint8_t> Bytes;
static std::string bytes(const Bytes& v) { J j = J::arr(); for (auto x : v) j.addi(x); return j.done(); }
static int code(BLResult r) { return r == BL_SUCCESS ? 0 : r == BL_ERROR_DATA_TRUNCATED ? 1 : r == BL_ERROR_INVALID_DATA || r == BL_ERROR_DECOMPRESSION_FAILED ? 2 : int(r); }
// Decodes with the given way of cutting the input (0 whole, 1 single bytes, 2 random parts).
static std::pair<int, Bytes> decode(Rng& g, const Bytes& d, bool z, int how, size_t cap, bool never) {
  std::unique_ptr<Decoder> dec(new Decoder); dec->init(z ? FormatType::kZlib : FormatType::kRaw, never ? DecoderOptions::kNeverReallocOutputBuffer : DecoderOptions::kNone);
  BLArray<uint8_t> dst; if (cap) dst.reserve(cap); BLResult r = BL_ERROR_DATA_TRUNCATED;
  for (size_t p = 0; p < d.size() || (d.empty() && p == 0);) { size_t n = how == 0 ? d.size() : how == 1 ? 1 : 1 + g.below(how == 2 ? 40 : 9); n = std::min(n, d.size() - p);
    uint8_t* part = new uint8_t[n ? n : 1]; if (n) memcpy(part, d.data() + p, n); r = dec->decode(dst, BLDataView{part, n}); delete[] part; p += n; if (d.empty()) break; if (r != BL_ERROR_DATA_TRUNCATED) break; }
  return {code(r), Bytes(dst.data(), dst.data() + dst.size())};
}
static Bytes some_data(Rng& g, size_t n) {
  Bytes d; int kind = int(g.below(8)); uint32_t k = 1 + g.below(20);
  while (d.size() < n) switch (kind) {
    case 0: d.push_back(uint8_t(g.next())); break; case 1: d.push_back(uint8_t(g.below(k))); break; case 2: d.push_back(0); break;
    case 3: if (d.size() > 4 && g.chance(40)) { size_t off = 1 + g.below(uint32_t(d.size())), len = 3 + g.below(g.chance(20) ? 300 : 20); for (size_t i = 0; i < len && d.size() < n; i++) d.push_back(d[d.size() - off]); } else d.push_back(uint8_t(g.below(k * 12))); break;
    case 4: { int len = 1 + int(g.below(40)); uint8_t v = uint8_t(g.next()); while (len-- && d.size() < n) d.push_back(v); break; }
    case 5: { uint32_t i = uint32_t(__builtin_ctzll(g.next() | (uint64_t(1) << 30))); d.push_back(uint8_t(i * 7 + k)); break; } // frequencies that fall by half: the longest code words
    case 6: { uint32_t s = uint32_t(__builtin_ctzll(g.next() | (uint64_t(1) << 15))), off = (1u << s) + g.below(1u << s), len = g.chance(10) ? 3 + g.below(256) : 3 + g.below(5); if (off <= d.size() && g.chance(70)) for (size_t i = 0; i < len && d.size() < n; i++) d.push_back(d[d.size() - off]); else d.push_back(uint8_t(g.next())); break; }
    default: d.push_back(uint8_t(d.size() % 7 == 0 ? g.next() : d.size() * 3)); }
  return d;
}
int main(int argc, char** argv) {
  Args a(argc, argv); TraceFile tf(a.out); BLRuntime::cleanup(BL_RUNTIME_CLEANUP_NO_FLAGS); bool sums = a.mode == "sums", big = a.mode == "big";
  for (int n = 0; n < a.n; n++) {
    Rng g(a.seed * 7919 + n); tf.begin();
    for (int e = 0; e < a.len; e++) {
      where("event " + std::to_string(e)); J j = J::obj();
      if (sums) {
        size_t sz = g.chance(25) ? 5000 + g.below(8000) : g.below(300), off = g.below(33); int kind = int(g.below(3)); Bytes buf(sz + off); for (auto& x : buf) x = kind == 0 ? 255 : kind == 1 ? uint8_t(g.next()) : uint8_t(g.below(4)); const uint8_t* p = buf.data() + off;
        auto half = [](uint32_t v) { J q = J::arr(); q.addi(v >> 16).addi(v & 65535); return q.done(); };
        j.str("op", "sum").raw("d", bytes(Bytes(p, p + sz))).raw("ad", half(Checksum::adler32(p, sz))).raw("crc", half(Checksum::crc32(p, sz))); std::vector<size_t> cuts; int k = 1 + int(g.below(4)); for (int i = 0; i < k; i++) cuts.push_back(g.below(uint32_t(sz + 1))); cuts.push_back(sz); std::sort(cuts.begin(), cuts.end());
        J c = J::arr(), ps = J::arr(); size_t at = 0; uint32_t A = Checksum::kAdler32Initial, C = Checksum::kCrc32Initial; for (size_t x : cuts) { bool ref = g.chance(30); A = ref ? Checksum::adler32_update_ref(A, p + at, x - at) : Checksum::function_table.adler32(A, p + at, x - at); C = ref ? Checksum::crc32_update_ref(C, p + at, x - at) : Checksum::function_table.crc32(C, p + at, x - at); at = x; c.addi((long long)x); ps.add("[" + half(A) + "," + half(C) + "]"); }
        j.raw("cuts", c.done()).raw("parts", ps.done());
      } else if (!big && g.chance(60)) {
        Bytes want; bool z = g.chance(30); Bytes d; g_warp = g.chance(25); do { want.clear(); d = random_deflate(g, g.chance(20) ? 600 + g.below(700) : g.below(250), want, nullptr, g.chance(50) ? 1000 : 100); } while (want.size() > 2500 || d.size() > 2500); if (z) d = zlib_wrap(g, d, want);
        int mut = g_warp, cut = 0; g_warp = 0; if (g.chance(25)) { mut = 1; int k = 1 + int(g.below(3)); for (int i = 0; i < k && !d.empty(); i++) { size_t p = g.chance(50) ? g.below(uint32_t(std::min<size_t>(d.size(), 24))) : g.below(uint32_t(d.size())); d[p] ^= uint8_t(1u << g.below(8)); } } if (g.chance(20)) { cut = 1; d.resize(g.below(uint32_t(d.size() + 1))); } else if (!mut && g.chance(30)) { int k = int(g.below(12)); while (k--) d.push_back(uint8_t(g.next())); }
        std::set<std::pair<int, Bytes>> rs; for (int how = 0; how < 4; how++) { bool never = mut == 0 && g.chance(40); size_t cap = never ? want.size() + (g.chance(50) ? 1024 : 1) : g.chance(50) ? 0 : g.below(2000); rs.insert(decode(g, d, z, how, cap, never)); }
        J r = J::arr(); for (auto& x : rs) r.add("[" + std::to_string(x.first) + "," + bytes(x.second) + "]"); j.str("op", "inf").i("z", z).raw("d", bytes(d)).raw("rs", r.done()).i("mut", mut).i("cut", cut).raw("want", bytes(want));
      } else if (!big) {
        Bytes d = some_data(g, g.chance(25) ? 500 + g.below(1500) : g.below(300)); bool z = g.chance(50); int lvl = int(g.below(13)); Encoder enc; BLResult r = enc.init(z ? FormatType::kZlib : FormatType::kRaw, uint32_t(lvl)); Bytes c; bool fits = true; int rounds = 1 + int(g.below(2));
        for (int k = 0; k < rounds; k++) { size_t cap = enc.minimum_output_buffer_size(d.size()); Bytes out(cap + 64, 0xA7); size_t got = enc.compress_to(out.data(), cap, d.data(), d.size()); fits &= got > 0 && got <= cap; for (size_t i = cap; i < out.size(); i++) fits &= out[i] == 0xA7; out.resize(std::min(got, cap)); if (k && out != c) fits = false; c = out; }
        auto b = decode(g, c, z, int(g.below(4)), 0, false); j.str("op", "def").i("z", z).i("lvl", lvl).i("rc", code(r)).raw("d", bytes(c)).raw("want", bytes(d)).i("back", b.first == 0 && b.second == d).i("fits", fits);
      } else {
        bool gen = g.chance(50), z = g.chance(30); Bytes want, d; bool fits = true; int lvl = int(g.below(13)); if (gen) { d = random_deflate(g, 20000 + g.below(200000), want, nullptr, size_t(g.pick({1000, 20000, 70000}))); if (z) d = zlib_wrap(g, d, want); }
        else { want = some_data(g, g.pick({1000, 10000, 66000, 140000, 300000}) + g.below(1000)); Encoder enc; enc.init(z ? FormatType::kZlib : FormatType::kRaw, uint32_t(lvl)); size_t cap = enc.minimum_output_buffer_size(want.size()); d.assign(cap + 64, 0xA7); size_t got = enc.compress_to(d.data(), cap, want.data(), want.size()); fits &= got > 0 && got <= cap; for (size_t i = cap; i < d.size(); i++) fits &= d[i] == 0xA7; d.resize(std::min(got, cap)); }
        int rc = 0; bool same = true; for (int how : {0, 3, 2, 0}) { bool never = g.chance(40); auto b = decode(g, d, z, how, never ? want.size() + (g.chance(50) ? 1024 : 1) : g.chance(50) ? 0 : g.below(100000), never); if (b.first) rc = b.first; same &= b.second == want; }
        j.str("op", "big").i("gen", gen).i("z", z).i("lvl", lvl).i("n", (long long)want.size()).i("rc", rc).i("same", same).i("fits", fits);
      }
      tf.ev(j.done());
    }
    tf.end();
  }
}
