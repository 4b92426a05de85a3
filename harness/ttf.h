// Writes OpenType fonts made up on the spot.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
namespace ttf {
typedef std::vector<uint8_t> Bytes;
struct W { Bytes b; W& u8(uint32_t v) { b.push_back(uint8_t(v)); return *this; } W& u16(uint32_t v) { return u8(v >> 8).u8(v); } W& u32(uint32_t v) { return u16(v >> 16).u16(v); } W& zeros(int n) { while (n-- > 0) u8(0); return *this; } W& raw(const Bytes& o) { b.insert(b.end(), o.begin(), o.end()); return *this; } void put16(size_t at, uint32_t v) { b[at] = uint8_t(v >> 8); b[at + 1] = uint8_t(v); } size_t size() const { return b.size(); } };
typedef std::map<std::string, Bytes> Tables;
inline Bytes head(int upem = 1000, int loca = 0) { return W().u32(0x10000).u32(0x10000).u32(0).u32(0x5F0F3CF5).u16(3).u16(uint32_t(upem)).zeros(16).u16(0).u16(uint32_t(-200)).u16(900).u16(800).u16(0).u16(8).u16(2).u16(uint32_t(loca)).u16(0).b; }
inline Bytes maxp(int glyphs) { return W().u32(0x10000).u16(uint32_t(glyphs)).zeros(26).b; }
inline Bytes hhea(int longs) { return W().u32(0x10000).u16(800).u16(uint32_t(-200)).u16(90).u16(1000).zeros(20).u16(0).u16(uint32_t(longs)).b; }
inline Bytes os2(int weight, int stretch, int style) { return W().u16(3).u16(500).u16(uint32_t(weight)).u16(uint32_t(stretch)).zeros(54).u16(style == 2 ? 1 : style == 1 ? 0x200 : 0).u16(0).u16(0).u16(800).u16(uint32_t(-200)).u16(0).u16(0).u16(0).zeros(22).b; }
inline Bytes name(const std::string& family, const std::string& sub) { W w, s; std::vector<std::pair<int, std::string>> r = {{1, family}, {2, sub}}; w.u16(0).u16(2).u16(6 + 24); for (auto& x : r) { w.u16(3).u16(1).u16(0x409).u16(uint32_t(x.first)).u16(uint32_t(x.second.size() * 2)).u16(uint32_t(s.size())); for (unsigned char c : x.second) s.u16(c); } w.raw(s.b); return w.u16(0).b; }
inline Bytes build(const Tables& t, uint32_t version = 0x10000) { W w; w.u32(version).u16(uint32_t(t.size())).u16(0).u16(0).u16(0); size_t off = 12 + t.size() * 16; for (auto& x : t) { for (char c : x.first) w.u8(uint8_t(c)); w.u32(0).u32(uint32_t(off)).u32(uint32_t(x.second.size())); off += (x.second.size() + 3) & ~size_t(3); } size_t n = 0; for (auto& x : t) { w.raw(x.second); if (++n < t.size()) while (w.size() & 3) w.u8(0); } return w.b; }
inline Tables basic(int glyphs, const std::string& family, int weight, int stretch, int style) {
  Tables t; t["head"] = head(); t["maxp"] = maxp(glyphs); t["hhea"] = hhea(1); t["hmtx"] = W().u16(500).u16(0).zeros(2 * (glyphs - 1)).b; t["OS/2"] = os2(weight, stretch, style); t["name"] = name(family, ""); t["glyf"] = Bytes(4, 0); t["loca"] = Bytes(size_t(glyphs + 1) * 2, 0);
  t["cmap"] = W().u16(0).u16(1).u16(3).u16(1).u32(12).u16(4).u16(32).u16(0).u16(4).u16(4).u16(1).u16(0).u16(0x61).u16(0xFFFF).u16(0).u16(0x61).u16(0xFFFF).u16(1 - 0x61).u16(1).u16(0).u16(0).b; return t; }
}
