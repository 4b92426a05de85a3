I = 'blend2d/core/imagescale.cpp'; S = 'blend2d/core/pathstroke.cpp'
def lanczos_vert():
    s = open('/repo/' + I).read(); i = s.index('static void BL_CDECL image_scale_vert_prgb32'); j = s.index('static void BL_CDECL image_scale_vert_xrgb32')
    body = s[i:j]; k = body.index('        cr = bl_clamp<int32_t>(cr >> 8, 0, ca);'); a = body[k - 200:k + 160]
    return a
A = lanczos_vert()
SEEDS = [
 dict(id='scale-lanczos-vertical-overshoot', property='C33', edits=[(I, A, A.replace('cb = bl_clamp<int32_t>(cb >> 8, 0, ca);', 'cb = bl_clamp<int32_t>(cb >> 8, 0, 255);'))] if A.count('cb >> 8, 0, ca') else [],
  needs='Lanczos filter, vertical pass, premultiplied pixels whose blue rings above the alpha', breaks='pixels stop being valid premultiplied',
  demo='''int main() { BLImage a(1, 8, BL_FORMAT_PRGB32); BLImageData d; a.make_mutable(&d);
  for (int y = 0; y < 8; y++) { uint32_t v = y < 4 ? 0x80000080u : 0x80000000u; if (y == 3) v = 0xFF0000FFu; if (y == 4) v = 0x20000020u; memcpy((char*)d.pixel_data + y * d.stride, &v, 4); }
  for (int h = 9; h < 60; h++) { BLImage b; if (BLImage::scale(b, a, BLSizeI(1, h), BL_IMAGE_SCALE_FILTER_LANCZOS)) return 2; BLImageData q; b.get_data(&q);
    for (int y = 0; y < h; y++) { uint32_t v; memcpy(&v, (char*)q.pixel_data + y * q.stride, 4); if ((v & 255) > (v >> 24)) { printf("%d %d %08x\\n", h, y, v); return 1; } } }
  return 0; }'''),
 dict(id='stroke-second-figure-start-cap', property='C34', edits=[(S, 'side_data(Side::kA).figure_offset = side_data(Side::kA).path->size();', 'side_data(Side::kA).figure_offset = side_data(Side::kA).path->size() & ~size_t(31);')],
  needs='a stroke added to a path that holds less than 32 vertices already, or several figures in one path', breaks='the start cap (or closing join) is connected to another figure',
  demo='''int main() { BLImage im(64, 32, BL_FORMAT_A8); BLContext c(im); c.clear_all(); BLPath q; q.add_rect(BLRect(50, 20, 4, 4)); BLPath p; p.move_to(10, 10); p.line_to(30, 10); BLStrokeOptions so; so.width = 4; so.set_caps(BL_STROKE_CAP_SQUARE);
  if (q.add_stroked_path(p, so, bl_default_approximation_options)) return 2; c.fill_path(q, BLRgba32(0xFFFFFFFFu)); c.end(); BLImageData d; im.get_data(&d);
  for (int y = 0; y < 32; y++) for (int x = 0; x < 64; x++) { bool in = (x >= 8 && x < 32 && y >= 8 && y < 12) || (x >= 50 && x < 54 && y >= 20 && y < 24); int v = ((uint8_t*)d.pixel_data)[y * d.stride + x]; if (in ? v < 250 : v > 4) { printf("%d,%d = %d\\n", x, y, v); return 1; } }
  return 0; }'''),
 dict(id='stroke-closing-join', property='C34', edits=[(S, '        // closed. Next time we terminate on `is_closed()` condition above.\n          _flags |= kFlagIsClosed;', '        // closed. Next time we terminate on `is_closed()` condition above.\n          _flags |= kFlagIsClosed;\n          if (is_open() && _p0 == _pInitial) _nInitial = _n0;')],
  needs='a closed figure whose last vertex repeats its first', breaks='the join at the closing vertex is missing',
  demo='''int main() { BLImage im(40, 40, BL_FORMAT_A8); BLContext c(im); c.clear_all(); BLPath p; p.move_to(10, 10); p.line_to(30, 10); p.line_to(30, 30); p.line_to(10, 30); p.line_to(10, 10); p.close(); c.set_stroke_width(6); c.stroke_path(p, BLRgba32(0xFFFFFFFFu)); c.end(); BLImageData d; im.get_data(&d);
  for (int y = 0; y < 40; y++) for (int x = 0; x < 40; x++) { bool in = x >= 7 && x < 33 && y >= 7 && y < 33 && !(x >= 13 && x < 27 && y >= 13 && y < 27); int v = ((uint8_t*)d.pixel_data)[y * d.stride + x]; if (in ? v < 250 : v > 4) { printf("%d,%d = %d\\n", x, y, v); return 1; } }
  return 0; }'''),
]
