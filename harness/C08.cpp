// C08: rearranging pixels: flips, transpose, sub-images, concatenation, splitting, pasting
#include "img.h"
using namespace g;
using namespace TinyDIP;

template<class T, class F> static Image<T> remap(const Sz& z, F f)     // f(x, y) -> T
{
    std::vector<T> v; for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) v.push_back(f(x, y));
    return Image<T>(v, z);
}
static Sz sz2(Src& s, std::size_t hi = 10) { return wide2(s, hi, hi); }
template<class T, class G> static void flips(Src& s, G gg)
{
    Sz z = sz2(s); auto a = gen(s, z, gg); s.desc << show(a, 8); s.nontrivial(z[0] > 1 && z[1] > 1);
    std::size_t w = z[0], h = z[1];
    req_eq(flip_horizontal(a), remap<T>(z, [&](std::size_t x, std::size_t y) { return px(a, w - 1 - x, y); }), "horizontal flip");
    req_eq(flip_vertical(a), remap<T>(z, [&](std::size_t x, std::size_t y) { return px(a, x, h - 1 - y); }), "vertical flip");
    req_eq(flip_horizontal_vertical(a), remap<T>(z, [&](std::size_t x, std::size_t y) { return px(a, w - 1 - x, h - 1 - y); }), "flip of both axes");
    auto t = remap<T>(Sz{h, w}, [&](std::size_t x, std::size_t y) { return px(a, y, x); });
    req_eq(transpose(a), t, "transpose"); req_eq(transpose(std::execution::par, a), t, "transpose (par)"); req_eq(transpose(std::execution::seq, a), t, "transpose (seq)");
}
PROP(flip_byte, "more than one row and column") { flips<std::uint8_t>(s, gb); }
PROP(flip_rgb, "more than one row and column") { flips<RGB>(s, grgb); }
PROP(flip_double, "more than one row and column") { flips<double>(s, gd); }
PROP(wrong_dimension, "the image is not two-dimensional")
{
    Sz z = dims(s, 1, 4, 1, 3); if (z.size() == 2) z.push_back(1); auto a = iimg(s, z); s.desc << str(z); s.nontrivial();
    REQ(throws<std::runtime_error>([&] { (void)transpose(a); }) && throws<std::runtime_error>([&] { (void)transpose(std::execution::seq, a); }), "transpose of " << str(z));
    REQ(throws<std::runtime_error>([&] { (void)flip_horizontal(a); }) && throws<std::runtime_error>([&] { (void)flip_vertical(a); }) && throws<std::runtime_error>([&] { (void)flip_horizontal_vertical(a); }), "flip of " << str(z));
    auto b = iimg(s, Sz{2, 2}); REQ(throws<std::runtime_error>([&] { (void)paste2D(a, b, 0, 0); }) && throws<std::runtime_error>([&] { (void)paste2D(b, a, 0, 0); }), "paste with " << str(z));
}
PROP(subimage_nd, "the window leaves the image or has an even and an odd side")
{
    Sz z = dims(s, 1, 4, 1, 6), n; std::vector<int> c; bool out = false; auto a = iimg(s, z); int def = static_cast<int>(s.sint(9));
    for (std::size_t k = 0; k < z.size(); ++k) { n.push_back(z.size() < 3 ? s.tail(1, 8, 40) : s.sz(1, 8)); c.push_back(s.draw(29) ? static_cast<int>(s.in(-3, static_cast<long>(z[k]) + 3)) : static_cast<int>(s.sint(400))); }
    s.desc << show(a, 6) << " window " << str(n) << " at"; for (int v : c) s.desc << " " << v;
    std::vector<int> want(prod(n));
    for (std::size_t i = 0; i < want.size(); ++i) { Sz o = coord(i, n), q(z.size()); bool in = true;
        for (std::size_t k = 0; k < z.size(); ++k) { long p = c[k] - static_cast<long>(n[k] / 2) + static_cast<long>(o[k]); if (p < 0 || p >= static_cast<long>(z[k])) in = false; else q[k] = static_cast<std::size_t>(p); }
        want[i] = in ? a.getImageData()[flat(q, z)] : def; out = out || !in; }
    s.nontrivial(out || z.size() > 2); Image<int> w(want, n);
    req_eq(subimage(std::execution::seq, a, n, c, def), w, "sub-image"); req_eq(subimage(std::execution::par, a, n, c, def), w, "sub-image (par)");
    bool pos = std::all_of(c.begin(), c.end(), [](int v) { return v >= 0; });
    if (pos) { Sz cs(c.begin(), c.end()); req_eq(subimage(std::execution::seq, a, n, cs, def), w, "sub-image, unsigned centre");
        if (z.size() == 2) { req_eq(subimage(a, n[0], n[1], cs[0], cs[1], def), w, "two-dimensional sub-image"); req_eq(subimage(std::execution::par, a, n[0], n[1], cs[0], cs[1], def), w, "two-dimensional sub-image (par)"); } }
    Sz bad = n; bad.push_back(1); std::vector<int> cb = c; cb.push_back(0);
    REQ(throws<std::runtime_error>([&] { (void)subimage(std::execution::seq, a, bad, c, def); }) && throws<std::runtime_error>([&] { (void)subimage(std::execution::seq, a, n, cb, def); }), "wrong number of sizes or centres");
}
PROP(subimage2_region, "the region is empty, inverted or leaves the image, or is a proper part")
{
    Sz z = sz2(s, 8); auto a = rgbimg(s, z);
    std::size_t x0 = s.uz(0, z[0] + 1), x1 = s.chance(1, 3) ? z[0] - 1 + s.draw(2) : s.uz(0, z[0] + 1), y0 = s.uz(0, z[1] + 1), y1 = s.chance(1, 3) ? z[1] - 1 + s.draw(2) : s.uz(0, z[1] + 1);
    if (s.flip()) { if (x0 > x1) std::swap(x0, x1); if (y0 > y1) std::swap(y0, y1); }
    bool ok = x0 <= x1 && y0 <= y1 && x1 < z[0] && y1 < z[1]; s.desc << str(z) << " x " << x0 << ".." << x1 << " y " << y0 << ".." << y1 << (ok ? "" : " invalid"); s.nontrivial();
    if (!ok) { REQ(throws<std::runtime_error>([&] { (void)subimage2(a, x0, x1, y0, y1); }), "region x " << x0 << ".." << x1 << " y " << y0 << ".." << y1 << " of " << str(z) << " is refused"); return; }
    req_eq(subimage2(a, x0, x1, y0, y1), remap<RGB>(Sz{x1 - x0 + 1, y1 - y0 + 1}, [&](std::size_t x, std::size_t y) { return px(a, x0 + x, y0 + y); }), "region");
}
PROP(concatenation, "more than one image")
{
    std::size_t n = s.tail(1, 4, 20), w = s.tail(1, 6, 300), h = s.tail(1, 6, 300); std::vector<Image<int>> hs, vs; std::size_t W = 0, H = 0;
    for (std::size_t i = 0; i < n; ++i) { hs.push_back(iimg(s, Sz{h < 20 ? s.tail(1, 6, 200) : s.sz(1, 6), h})); W += hs.back().getWidth(); vs.push_back(iimg(s, Sz{w, w < 20 ? s.tail(1, 6, 200) : s.sz(1, 6)})); H += vs.back().getHeight(); }
    s.desc << n << " images"; s.nontrivial(n > 1);
    auto wh = remap<int>(Sz{W, h}, [&](std::size_t x, std::size_t y) { std::size_t i = 0; while (x >= hs[i].getWidth()) x -= hs[i++].getWidth(); return px(hs[i], x, y); });
    auto wv = remap<int>(Sz{w, H}, [&](std::size_t x, std::size_t y) { std::size_t i = 0; while (y >= vs[i].getHeight()) y -= vs[i++].getHeight(); return px(vs[i], x, y); });
    req_eq(concat_horizontal(hs), wh, "side by side"); req_eq(concat_vertical(vs), wv, "stacked");
    if (n == 2) { req_eq(concat_horizontal(hs[0], hs[1]), wh, "two side by side"); req_eq(concat_vertical(vs[0], vs[1]), wv, "two stacked"); }
    auto bad = iimg(s, Sz{w + 1, h + 1}); REQ(throws<std::runtime_error>([&] { (void)concat_horizontal(hs[0], bad); }) && throws<std::runtime_error>([&] { (void)concat_vertical(vs[0], bad); }), "mismatched images are refused");
    auto hb = hs; hb.push_back(bad); auto vb = vs; vb.push_back(bad); REQ(throws<std::runtime_error>([&] { (void)concat_horizontal(hb); }) && throws<std::runtime_error>([&] { (void)concat_vertical(vb); }), "a mismatched image in a list is refused");
}
PROP(split_concat, "more than one block")
{
    std::size_t nx = s.tail(1, 4, 12), ny = s.tail(1, 4, 12); Sz z{nx * s.tail(1, 4, 25) + s.draw(nx - 1), ny * s.tail(1, 4, 25) + s.draw(ny - 1)}; auto a = bimg(s, z);
    std::size_t bx = z[0] / nx, by = z[1] / ny; s.desc << str(z) << " into " << nx << "x" << ny; s.nontrivial(nx * ny > 1);
    auto p = split(a, nx, ny); REQ(p.size() == ny, "rows of blocks");
    for (std::size_t j = 0; j < ny; ++j) { REQ(p[j].size() == nx, "blocks in a row"); for (std::size_t i = 0; i < nx; ++i) req_eq(p[j][i], remap<std::uint8_t>(Sz{bx, by}, [&](std::size_t x, std::size_t y) { return px(a, i * bx + x, j * by + y); }), "block"); }
    req_eq(concat(p), remap<std::uint8_t>(Sz{bx * nx, by * ny}, [&](std::size_t x, std::size_t y) { return px(a, x, y); }), "concatenating the blocks gives the image back");
    // overlapping blocks: each carries its neighbourhood, taken from the padded image at the border
    std::size_t ex = s.draw(std::min<std::size_t>(s.draw(7) ? 3 : 30, z[0] - 1)), ey = s.draw(std::min<std::size_t>(s.draw(7) ? 3 : 30, z[1] - 1)); int bc = static_cast<int>(s.draw(2)); std::uint8_t cv = gb(s);
    BoundaryCondition b = bc == 0 ? BoundaryCondition::mirror : bc == 1 ? BoundaryCondition::constant : BoundaryCondition::replicate;
    auto q = split_overlap(std::execution::seq, a, nx, ny, ex, ey, b, cv); REQ(q.size() == ny, "rows of overlapping blocks");
    auto at = [&](long x, long y) -> std::uint8_t { long w = static_cast<long>(z[0]), h = static_cast<long>(z[1]);
        if (bc == 1 && (x < 0 || y < 0 || x >= w || y >= h)) return cv;
        auto m = [&](long v, long n) { if (bc == 0) { if (v < 0) v = -v; if (v >= n) v = 2 * n - 2 - v; return v; } return std::clamp(v, 0L, n - 1); };
        return px(a, static_cast<std::size_t>(m(x, w)), static_cast<std::size_t>(m(y, h))); };
    for (std::size_t j = 0; j < ny; ++j) { REQ(q[j].size() == nx, "overlapping blocks in a row"); for (std::size_t i = 0; i < nx; ++i)
        req_eq(q[j][i], remap<std::uint8_t>(Sz{bx + 2 * ex, by + 2 * ey}, [&](std::size_t x, std::size_t y) { return at(static_cast<long>(i * bx + x) - static_cast<long>(ex), static_cast<long>(j * by + y) - static_cast<long>(ey)); }), "overlapping block " + std::to_string(i) + "," + std::to_string(j)); }
}
PROP(paste, "the pasted image overlaps the background or reaches beyond it")
{
    Sz zb = sz2(s, 8), zt = sz2(s, 8); auto b = rgbimg(s, zb), t = rgbimg(s, zt); std::size_t x0 = s.tail(0, 10, 280), y0 = s.tail(0, 10, 280); RGB d = grgb(s);
    s.desc << str(zt) << " onto " << str(zb) << " at " << x0 << "," << y0; s.nontrivial();
    auto w = remap<RGB>(Sz{std::max(zb[0], x0 + zt[0]), std::max(zb[1], y0 + zt[1])}, [&](std::size_t x, std::size_t y) -> RGB {
        if (x >= x0 && y >= y0 && x < x0 + zt[0] && y < y0 + zt[1]) return px(t, x - x0, y - y0);
        if (x < zb[0] && y < zb[1]) return px(b, x, y);
        return d; });
    req_eq(paste2D(b, t, x0, y0, d), w, "paste"); req_eq(paste2D(std::execution::par, b, t, x0, y0, d), w, "paste (par)");
}
PROP(highlight, "the frame meets the border or the region is larger than the frame")
{
    Sz z = sz2(s, 20); auto a = rgbimg(s, z); std::size_t x0 = s.draw(z[0] - 1), x1 = s.uz(x0, z[0] - 1), y0 = s.draw(z[1] - 1), y1 = s.uz(y0, z[1] - 1), w = s.tail(1, 6, 40); RGB c = grgb(s);
    s.desc << str(z) << " x " << x0 << ".." << x1 << " y " << y0 << ".." << y1 << " frame " << w; s.nontrivial();
    long h = static_cast<long>(w / 2), L = static_cast<long>(w);
    auto want = remap<RGB>(z, [&](std::size_t ux, std::size_t uy) -> RGB { long x = static_cast<long>(ux), y = static_cast<long>(uy), a0 = static_cast<long>(x0), a1 = static_cast<long>(x1), b0 = static_cast<long>(y0), b1 = static_cast<long>(y1);
        bool box = x >= a0 - h && x < a1 + h && y >= b0 - h && y < b1 + h;
        bool edge = std::labs(x - a0) < L || std::labs(x - a1) < L || std::labs(y - b0) < L || std::labs(y - b1) < L;
        return box && edge ? c : px(a, ux, uy); });
    req_eq(highlight_region(a, x0, x1, y0, y1, w, c.channels[0], c.channels[1], c.channels[2]), want, "highlighted region");
}
