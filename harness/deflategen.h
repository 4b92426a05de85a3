// Writes conforming deflate streams at random: stored, fixed and dynamic blocks with arbitrary complete Huffman codes.
#pragma once
#include "vh.h"
namespace vh {
struct BitOut { std::vector<uint8_t> d; int n = 0; uint32_t acc = 0;
  void put(uint32_t v, int k) { for (int i = 0; i < k; i++) { acc |= ((v >> i) & 1u) << n; if (++n == 8) { d.push_back(uint8_t(acc)); n = 0; acc = 0; } } }
  void align() { if (n) { d.push_back(uint8_t(acc)); n = 0; acc = 0; } } };
struct Code { std::vector<int> len; std::vector<uint32_t> code;
  void build() { code.assign(len.size(), 0); uint32_t c = 0; for (int L = 1; L <= 15; L++) { for (size_t i = 0; i < len.size(); i++) if (len[i] == L) code[i] = c++; c <<= 1; } }
  void put(BitOut& o, int s) const { for (int i = len[size_t(s)] - 1; i >= 0; i--) o.put((code[size_t(s)] >> i) & 1, 1); }
  bool has(int s) const { return s < int(len.size()) && len[size_t(s)] > 0; } };
// Lengths of a complete code of k leaves, none deeper than `max`.
inline std::vector<int> random_lengths(Rng& g, int k, int max, bool deep) {
  std::vector<int> L{0}; if (k == 1) return {1};
  while (int(L.size()) < k) { size_t i = g.below(uint32_t(L.size())); if (deep) i = L.size() - 1 - g.below(uint32_t(std::min<size_t>(L.size(), 2))); if (L[i] >= max) { size_t best = 0; for (size_t j = 0; j < L.size(); j++) if (L[j] < L[best]) best = j; i = best; } L[i]++; L.push_back(L[i]); }
  for (size_t i = L.size(); i > 1; i--) std::swap(L[i - 1], L[g.below(uint32_t(i))]); return L;
}
inline Code random_code(Rng& g, const std::vector<int>& syms, int total, int max) { Code c; c.len.assign(size_t(total), 0); auto L = random_lengths(g, int(syms.size()), max, g.chance(30)); for (size_t i = 0; i < syms.size(); i++) c.len[size_t(syms[i])] = L[i]; c.build(); return c; }
static const int kLenBase[] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258};
static const int kLenExtra[] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
static const int kDistBase[] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577};
static const int kDistExtra[] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
// Appends blocks that produce `out`. When `want` is given the bytes to produce are prescribed, otherwise they are made up
// (about `size` bytes).
static int g_warp = 0;
inline std::vector<uint8_t> random_deflate(Rng& g, size_t size, std::vector<uint8_t>& out, const std::vector<uint8_t>* want = nullptr, size_t block_max = 400) {
  BitOut o; if (want) size = want->size(); size_t pos = 0; bool last = false;
  while (!last) {
    size_t left = size - pos, n = left; last = n <= block_max ? g.chance(60) : false; if (!last) n = g.chance(10) ? 0 : g.below(uint32_t(std::min(left, block_max)) + 1); if (pos == size && !last) last = g.chance(70);
    int ty = int(g.below(4)); if (ty == 3) ty = 2; if (ty == 0 && n > 65535) { n = 65535; if (n < left) last = false; } size_t end = pos + n; o.put(last, 1); o.put(uint32_t(ty), 2);
    if (ty == 0) { o.align(); o.put(uint32_t(n), 16); o.put(uint32_t(n) ^ 65535, 16); for (; pos < end; pos++) { uint8_t b = want ? (*want)[pos] : uint8_t(g.next()); o.put(b, 8); out.push_back(b); } continue; }
    Code ll, dd;
    if (ty == 1) { ll.len.assign(288, 8); for (int i = 144; i < 256; i++) ll.len[size_t(i)] = 9; for (int i = 256; i < 280; i++) ll.len[size_t(i)] = 7; ll.build(); dd.len.assign(30, 5); dd.build(); }
    else {
      std::set<int> s{256}; if (want) for (size_t i = pos; i < end; i++) s.insert((*want)[i]);
      int nlit = g.chance(20) ? int(g.below(256)) : int(g.below(12)), nlen = g.chance(30) ? 0 : g.chance(15) ? 29 : 1 + int(g.below(8)); for (int i = 0; i < nlit; i++) s.insert(int(g.below(256))); for (int i = 0; i < nlen; i++) s.insert(257 + int(g.below(29)));
      std::set<int> ds; int nd = g.chance(15) ? 0 : g.chance(20) ? 1 : g.chance(20) ? 30 : 1 + int(g.below(10)); for (int i = 0; i < nd; i++) ds.insert(int(g.chance(60) ? g.below(12) : g.below(30)));
      int maxl = g.chance(50) ? 15 : 9; auto fits = [](size_t k, int m) { return k <= (size_t(1) << m); }; if (!fits(s.size(), maxl)) maxl = 15;
      int top = *s.rbegin(), dtop = ds.empty() ? 0 : *ds.rbegin();
      ll = random_code(g, std::vector<int>(s.begin(), s.end()), std::max(257, top + 1 + int(g.chance(30) ? g.below(uint32_t(286 - top)) : 0)), maxl);
      dd = ds.empty() ? Code{} : random_code(g, std::vector<int>(ds.begin(), ds.end()), dtop + 1 + int(g.chance(30) ? g.below(uint32_t(30 - dtop)) : 0), 15);
      if (ds.empty()) { dd.len.assign(1 + g.below(3), 0); dd.build(); }
      if (g_warp && g.chance(60)) { // a code that is incomplete or uses more than the code space
        Code& w = g.chance(50) ? ll : dd; std::vector<size_t> u; for (size_t i = 0; i < w.len.size(); i++) if (w.len[i]) u.push_back(i);
        int how = int(g.below(5)); if (!u.empty()) {
          if (how == 0) { int& x = w.len[g.pick(u)]; if (x < 15) x++; }
          else if (how == 1) { int& x = w.len[g.pick(u)]; if (x > 1) x--; }
          else if (how == 2) { size_t keep = g.chance(60) && &w == &ll ? 256 : g.pick(u); for (auto i : u) w.len[i] = 0; w.len[keep] = g.chance(50) ? 1 : 1 + int(g.below(15)); }
          else if (how == 3) { int n = 1 + int(g.below(4)), L = n + int(g.below(2)); if (L > 0) { for (auto i : u) w.len[i] = 0; for (int i = 0; i < (1 << n) / 2; i++) w.len[&w == &ll ? 256 - size_t(i) : std::min(w.len.size() - 1, size_t(i))] = std::min(15, L); } }
          else { size_t i = g.pick(u); if (i != 256) w.len[i] = 0; } }
        ll.build(); dd.build(); }
      std::vector<int> all(ll.len); all.insert(all.end(), dd.len.begin(), dd.len.end());
      std::vector<std::pair<int, int>> tok; // (symbol, extra value)
      for (size_t i = 0; i < all.size();) { size_t r = 1; while (i + r < all.size() && all[i + r] == all[i]) r++;
        if (all[i] == 0 && r >= 3 && g.chance(85)) { size_t k = std::min<size_t>(r, 138); if (g.chance(20)) k = 3 + g.below(uint32_t(k - 2)); if (k <= 10) tok.push_back({17, int(k) - 3}); else tok.push_back({18, int(k) - 11}); i += k; }
        else if (i > 0 && all[i - 1] == all[i] && r >= 3 && g.chance(85)) { size_t k = std::min<size_t>(r, 6); tok.push_back({16, int(k) - 3}); i += k; }
        else { tok.push_back({all[i], 0}); i++; } }
      std::set<int> ps; for (auto& t : tok) ps.insert(t.first); if (ps.size() < 2) ps.insert(*ps.begin() == 0 ? 1 : 0); if (g.chance(30)) for (int i = 0; i < 6; i++) ps.insert(int(g.below(19)));
      Code pc = random_code(g, std::vector<int>(ps.begin(), ps.end()), 19, 7);
      static const int ord[19] = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15}; int hc = 19; while (hc > 4 && pc.len[size_t(ord[hc - 1])] == 0 && g.chance(95)) hc--;
      o.put(uint32_t(ll.len.size() - 257), 5); o.put(uint32_t(dd.len.size() - 1), 5); o.put(uint32_t(hc - 4), 4); for (int i = 0; i < hc; i++) o.put(uint32_t(pc.len[size_t(ord[i])]), 3);
      for (auto& t : tok) { pc.put(o, t.first); if (t.first == 16) o.put(uint32_t(t.second), 2); if (t.first == 17) o.put(uint32_t(t.second), 3); if (t.first == 18) o.put(uint32_t(t.second), 7); }
    }
    std::vector<int> lits, lens, dists; for (int i = 0; i < 256; i++) if (ll.has(i)) lits.push_back(i); for (int i = 257; i < 286; i++) if (ll.has(i)) lens.push_back(i - 257); for (int i = 0; i < 30; i++) if (dd.has(i)) dists.push_back(i);
    unsigned mp = unsigned(g.pick({10, 50, 90}));
    while (pos < end) {
      bool done = false;
      if (!lens.empty() && !dists.empty() && pos > 0 && g.chance(mp)) for (int tries = 0; tries < 6 && !done; tries++) {
        int li = g.pick(lens), di = g.pick(dists); int le = int(g.below(1u << kLenExtra[li])), de = int(g.below(1u << kDistExtra[di])); size_t n2 = size_t(kLenBase[li] + le), k = size_t(kDistBase[di] + de);
        if (li == 27 && n2 == 258) continue;
        if (k > pos || pos + n2 > end) continue; if (want) { bool eq = true; for (size_t i = 0; i < n2 && eq; i++) eq = (*want)[pos + i] == (*want)[pos + i - k]; if (!eq) continue; }
        ll.put(o, 257 + li); o.put(uint32_t(le), kLenExtra[li]); dd.put(o, di); o.put(uint32_t(de), kDistExtra[di]); for (size_t i = 0; i < n2; i++) out.push_back(out[out.size() - k]); pos += n2; done = true; }
      if (done) continue;
      if (want) { ll.put(o, (*want)[pos]); out.push_back((*want)[pos]); pos++; }
      else if (!lits.empty()) { int b = g.pick(lits); ll.put(o, b); out.push_back(uint8_t(b)); pos++; }
      else break;
    }
    ll.put(o, 256); size = want ? size : std::max(size, pos); if (!want && pos < end) { if (last) size = pos; else if (size > pos + 2000000) size = pos; }
    if (last && want && pos < size) last = false;
  }
  o.align(); return o.d;
}
inline std::vector<uint8_t> zlib_wrap(Rng& g, const std::vector<uint8_t>& raw, const std::vector<uint8_t>& data) {
  std::vector<uint8_t> z; int cinfo = 7, lvl = int(g.below(4)); int cmf = cinfo * 16 + 8, flg = lvl * 64; flg += 31 - (cmf * 256 + flg) % 31; z.push_back(uint8_t(cmf)); z.push_back(uint8_t(flg)); z.insert(z.end(), raw.begin(), raw.end());
  uint32_t a = 1, b = 0; for (uint8_t x : data) { a = (a + x) % 65521; b = (b + a) % 65521; } z.push_back(uint8_t(b >> 8)); z.push_back(uint8_t(b)); z.push_back(uint8_t(a >> 8)); z.push_back(uint8_t(a)); return z;
}
}
