// C25: file objects in a scratch directory. read() and write() are replaced: they may transfer less than asked for
// or fail, as the operating system may.
#include "vh.h"
#include <sys/stat.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
using namespace vh;
static Rng* inj = nullptr; static int short_pct = 0, fail_in = -1; static bool failed = false;
extern "C" ssize_t read(int fd, void* p, size_t n) { if (inj) { if (fail_in == 0) { failed = true; fail_in = -1; errno = EIO; return -1; } if (fail_in > 0) fail_in--; if (n > 1 && inj->chance(unsigned(short_pct))) n = 1 + inj->below(unsigned(n - 1)); } return syscall(SYS_read, fd, p, n); }
extern "C" ssize_t write(int fd, const void* p, size_t n) { if (inj) { if (fail_in == 0) { failed = true; fail_in = -1; errno = ENOSPC; return -1; } if (fail_in > 0) fail_in--; if (n > 1 && inj->chance(unsigned(short_pct))) n = 1 + inj->below(unsigned(n - 1)); } return syscall(SYS_write, fd, p, n); }
static int code(BLResult r) { switch (r) { case BL_SUCCESS: return 0; case BL_ERROR_INVALID_VALUE: return 1; case BL_ERROR_INVALID_HANDLE: return 2; case BL_ERROR_NOT_PERMITTED: return 3; case BL_ERROR_NO_ENTRY: return 4; case BL_ERROR_ALREADY_EXISTS: return 5; case BL_ERROR_IO: case BL_ERROR_NO_SPACE_LEFT: return 9; default: return int(r); } }
static std::string root;
static std::string name(int f) { static const char* nm[] = {"", "a.bin", "p\xC5\x99\xC3\xADli\xC5\xA1.bin", "c"}; return root + "/" + nm[f]; }
static int count_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n - 3; }
static int count_maps() { FILE* f = fopen("/proc/self/maps", "r"); char b[4096]; int n = 0; while (fgets(b, sizeof b, f)) if (strstr(b, root.c_str())) n++; fclose(f); return n; }
template<class V> static std::string bytes(const V& v, size_t n) { J j = J::arr(); for (size_t i = 0; i < n; i++) j.addi(uint8_t(v[i])); return j.done(); }
static void fill_info(J& j, const BLFileInfo& in, const char* nm) {
  struct stat s; bool perm = true; if (in.is_valid()) { perm = stat(nm, &s) == 0 && (uint32_t(in.flags) & 0xFFF) == (s.st_mode & 06777) && in.uid == s.st_uid && in.gid == s.st_gid; }
  j.i("v", (long long)in.size).i("reg", in.is_regular() && !in.is_directory() && !in.is_symlink()).i("valid", in.is_valid()).i("perm", perm); J m = J::arr(); m.addi(in.modified_time / 1000000).addi(in.modified_time % 1000000); j.raw("mt", m.done());
}
int main(int argc, char** argv) {
  Args a(argc, argv); TraceFile tf(a.out); char tmpl[4096]; snprintf(tmpl, sizeof tmpl, "%s/blfileXXXXXX", a.scratch.empty() ? "/tmp" : a.scratch.c_str()); if (!mkdtemp(tmpl)) return 2; root = tmpl;
  for (int n = 0; n < a.n; n++) {
    Rng g(a.seed * 7919 + n), ig(g.next()); tf.begin(); for (int f = 1; f <= 3; f++) unlink(name(f).c_str());
    { BLFile F[3]; BLArray<uint8_t> arr; const int base = count_fds();
    for (int e = 0; e < a.len; e++) {
      int s = int(g.below(3)), f = 1 + int(g.below(3)); J j = J::obj(); short_pct = g.pick({0, 0, 50, 90}); fail_in = g.chance(5) ? int(g.below(4)) : -1; failed = false; bool had = false;
      std::vector<uint8_t> d(g.chance(10) ? g.below(200) : g.below(24)); for (auto& x : d) x = uint8_t(g.next());
      auto on = [&]() { inj = &ig; }; auto off = [&]() { inj = nullptr; had = failed; };
      where("op on slot " + std::to_string(s));
      switch (g.below(20)) {
        case 0: case 1: case 2: { uint32_t fl = 0; bool r = g.chance(70), w = g.chance(70), c = w ? g.chance(60) : g.chance(5), x = w ? g.chance(15) : g.chance(5), t = w ? g.chance(20) : g.chance(5); if (r) fl |= BL_FILE_OPEN_READ; if (w) fl |= BL_FILE_OPEN_WRITE; if (c) fl |= BL_FILE_OPEN_CREATE; if (x) fl |= BL_FILE_OPEN_CREATE_EXCLUSIVE; if (t) fl |= BL_FILE_OPEN_TRUNCATE; if (g.chance(5)) fl |= BL_FILE_OPEN_RW_EXCLUSIVE;
          BLResult q = F[s].open(name(f).c_str(), BLFileOpenFlags(fl)); j.str("op", "open").i("s", s + 1).i("f", f).i("r", r).i("w", w).i("c", c).i("x", x).i("tr", t).i("rc", code(q)); break; }
        case 3: { BLResult q = g.chance(70) ? F[s].close() : bl_file_reset(&F[s]); j.str("op", "close").i("s", s + 1).i("rc", code(q)); break; }
        case 4: case 5: { int how = g.chance(4) ? 3 : int(g.below(3)); int64_t off = g.range(-20, 40), pos = 77; if (how == 0 && g.chance(80)) off = g.range(0, 40); BLResult q = F[s].seek(off, BLFileSeekType(how), &pos); j.str("op", "seek").i("s", s + 1).i("how", how).i("off", off).i("rc", code(q)).i("pos", pos); break; }
        case 6: case 7: case 8: { size_t cnt = g.chance(10) ? g.below(300) : g.below(40), got = 99999; std::vector<uint8_t> b(cnt + 16, 0xA5); on(); BLResult q = F[s].read(b.data(), cnt, &got); off(); bool over = got > cnt; if (over) got = 0; for (size_t i = got; i < b.size(); i++) over |= b[i] != 0xA5; j.str("op", "read").i("s", s + 1).i("n", (long long)cnt).i("rc", code(q)).raw("d", bytes(b, got)).i("inj", had).i("over", over); break; }
        case 9: case 10: case 11: { size_t put = 99999; on(); BLResult q = F[s].write(d.data(), d.size(), &put); off(); j.str("op", "write").i("s", s + 1).raw("d", bytes(d, d.size())).i("rc", code(q)).i("n", (long long)put).i("inj", had); break; }
        case 12: { int64_t m = g.chance(10) ? -1 - int(g.below(5)) : int(g.below(50)); BLResult q = F[s].truncate(m); j.str("op", "trunc").i("s", s + 1).i("n", m).i("rc", code(q)); struct stat st; j.i("sz", F[s].is_open() && fstat(int(F[s].handle), &st) == 0 ? (long long)st.st_size : -1); break; }
        case 13: { uint64_t v = 5; BLResult q = F[s].get_size(&v); j.str("op", "size").i("s", s + 1).i("rc", code(q)).i("v", (long long)v); break; }
        case 14: { BLFileInfo in; memset(&in, 0x55, sizeof in);
          if (g.chance(50)) { // distinct owner, group and mode bits (needs root: otherwise they stay as they are)
            if (chown(name(f).c_str(), 100 + uid_t(g.below(4)), 200 + gid_t(g.below(4)))) {} static const mode_t ms[] = {0644, 02751, 04715, 06777, 0640, 0602}; if (chmod(name(f).c_str(), g.pick(std::vector<mode_t>(ms, ms + 6)))) {} }
          if (g.chance(50)) { char nm[64]; snprintf(nm, sizeof nm, "/proc/self/fd/%d", int(F[s].handle)); BLResult q = F[s].get_info(&in); j.str("op", "info").i("s", s + 1).i("rc", code(q)); fill_info(j, in, nm); } else { BLResult q = BLFileSystem::file_info(name(f).c_str(), &in); j.str("op", "finfo").i("f", f).i("rc", code(q)); fill_info(j, in, name(f).c_str()); } break; }
        case 15: { int b = int(g.below(3)); if (b == s || g.chance(30)) { J v = J::arr(); for (auto& x : F) v.addi(x.is_open()); j.str("op", "isopen").raw("v", v.done()).i("fds", count_fds() - base); } else if (g.chance(50)) { if (g.chance(50)) F[s] = std::move(F[b]); else { BLFile tmp(std::move(F[b])); F[s] = std::move(tmp); } j.str("op", "move").i("s", s + 1).i("b", b + 1); } else { F[s].swap(F[b]); j.str("op", "swap").i("s", s + 1).i("b", b + 1); } break; }
        case 16: { size_t max = g.chance(50) ? 0 : g.below(40); uint32_t fl = g.chance(60) ? 0 : g.pick({1, 3, 9, 11}); BLArray<uint8_t> other; if (g.chance(30)) other = arr; if (g.chance(30)) arr.append(uint8_t(1)); on(); BLResult q = BLFileSystem::read_file(name(f).c_str(), arr, max, BLFileReadFlags(fl)); off(); j.str("op", "rdfile").i("f", f).i("max", (long long)max).i("fl", fl).i("rc", code(q)).raw("d", bytes(arr.data(), arr.size())).i("inj", had); tf.ev(j.done());
          BLArray<uint8_t> was(arr); J k = J::obj(); k.str("op", "mut").raw("add", bytes(d, d.size())); for (auto x : d) arr.append(x); k.raw("was", bytes(was.data(), was.size())).raw("d", bytes(arr.data(), arr.size())); { BLArray<uint8_t> z; z.assign_deep(arr); arr = z; } j = k; break; }
        case 17: { size_t put = 99999; on(); BLResult q; if (g.chance(50)) q = BLFileSystem::write_file(name(f).c_str(), d.data(), d.size(), &put); else { BLArray<uint8_t> w; w.assign_data(d.data(), d.size()); q = BLFileSystem::write_file(name(f).c_str(), w, &put); } off(); j.str("op", "wrfile").i("f", f).raw("d", bytes(d, d.size())).i("rc", code(q)).i("n", (long long)put).i("inj", had); break; }
        case 18: { long sec = g.below(2000000000), us = g.below(1000000); struct timeval tv[2] = {{sec, us}, {sec, us}}; utimes(name(f).c_str(), tv); j.str("op", "utime").i("f", f).i("sec", sec).i("us", us); break; }
        default:
          if (g.chance(85)) { std::vector<uint8_t> b(4096); int fd = open(name(f).c_str(), O_RDONLY); ssize_t k = fd < 0 ? 0 : syscall(SYS_read, fd, b.data(), b.size()); if (fd >= 0) close(fd); j.str("op", "ext").i("f", f).raw("d", bytes(b, size_t(k))); }
          else { size_t sz = size_t(g.pick({1, 4095, 4096, 16383, 16384, 16385, 20000, 65536, 100000})), max = g.chance(50) ? 0 : g.below(unsigned(sz) * 2), put; std::vector<uint8_t> b(sz); for (auto& x : b) x = uint8_t(g.next()); std::string nm = root + "/big"; uint32_t fl = g.pick({0, 1, 3, 9, 11}); fail_in = -1; short_pct = g.pick({0, 60}); on(); BLResult q = BLFileSystem::write_file(nm.c_str(), b.data(), sz, &put); if (q == BL_SUCCESS && put != sz) q = 77;
            bool same = true; size_t got; { BLArray<uint8_t> x; if (q == BL_SUCCESS) q = BLFileSystem::read_file(nm.c_str(), x, max, BLFileReadFlags(fl)); off(); got = x.size(); same = got <= sz && memcmp(x.data(), b.data(), got) == 0; BLArray<uint8_t> y(x); if (g.chance(50)) { y.append(uint8_t(9)); same &= y.size() == got + 1 && y[got] == 9 && x.size() == got && memcmp(x.data(), b.data(), got) == 0; } if (g.chance(50) && got) { uint8_t* p; x.make_mutable(&p); p[0] ^= 255; } }
            { int fd = open(nm.c_str(), O_RDONLY); std::vector<uint8_t> c(sz + 1); ssize_t k = 0, z; while ((z = syscall(SYS_read, fd, c.data() + k, c.size() - size_t(k))) > 0) k += z; close(fd); same &= size_t(k) == sz && memcmp(c.data(), b.data(), sz) == 0; }
            j.str("op", "big").i("n", (long long)sz).i("max", (long long)max).i("fl", fl).i("rc", code(q)).i("size", (long long)got).i("same", same).i("maps", count_maps()); unlink(nm.c_str()); }
      }
      tf.ev(j.done());
    } }
    J j = J::obj(); J v = J::arr(); for (int i = 0; i < 3; i++) v.addi(0); 
    tf.end();
  }
  for (int f = 1; f <= 3; f++) unlink(name(f).c_str());
  rmdir(root.c_str());
}
