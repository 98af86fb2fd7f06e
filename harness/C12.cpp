// C12: colour conversion, planes and channels
#include "img.h"
using namespace g;
using namespace TinyDIP;
typedef long double L;

static HSV hsv_of(const RGB& p)   // independent: hue as the angle of the chroma vector
{
    L r = p.channels[0], gg = p.channels[1], b = p.channels[2], mx = std::max({r, gg, b}), mn = std::min({r, gg, b}); HSV o{};
    if (mx > mn) { L h = std::atan2(std::sqrt(3.0L) * (gg - b), 2 * r - gg - b) * 180 / std::numbers::pi_v<L>; if (h < 0) h += 360; o.channels[0] = static_cast<double>(h); }
    o.channels[1] = mx > 0 ? static_cast<double>(1 - mn / mx) : 0; o.channels[2] = static_cast<double>(mx); return o;
}
static bool hue_close(double a, double b) { double d = std::fabs(a - b); return std::min(d, 360 - d) < 1e-6; }
static void req_hsv(const HSV& g_, const RGB& p)
{
    HSV w = hsv_of(p); REQ(hue_close(g_.channels[0], w.channels[0]) && g_.channels[0] >= 0 && g_.channels[0] < 360, "hue of " << ps(p) << " is " << g_.channels[0] << " expected " << w.channels[0]);
    REQ(close(g_.channels[1], w.channels[1], 0, 1e-12), "saturation of " << ps(p) << " is " << g_.channels[1]); REQ(g_.channels[2] == w.channels[2], "value of " << ps(p) << " is " << g_.channels[2]);
}
static bool sector(L H, L S, L V, const RGB& got)   // standard hexagon, truncated
{
    int i = static_cast<int>(std::floor(H / 60)) % 6; L f = H / 60 - std::floor(H / 60), p = V * (1 - S), q = V * (1 - f * S), t = V * (1 - (1 - f) * S);
    L c[6][3] = {{V, t, p}, {q, V, p}, {p, V, t}, {p, q, V}, {t, p, V}, {V, p, q}};
    for (int k = 0; k < 3; ++k) { L w = c[i][k]; if (got.channels[k] < std::trunc(w - 1e-7L) || got.channels[k] > std::trunc(w + 1e-7L)) return false; }
    return true;
}
static void req_rgb(const RGB& got, const HSV& h)
{
    L H = h.channels[0], S = h.channels[1], V = std::clamp<L>(h.channels[2], 0, 255); bool ok = sector(H, S, V, got);
    for (L e : {1e-9L, -1e-9L}) if (H + e >= 0 && H + e < 360) ok = ok || sector(H + e, S, V, got);
    REQ(ok, ps(h) << " gives " << ps(got));
}
static RGB gcol(Src& s)
{
    RGB p = grgb(s); int m = static_cast<int>(s.draw(6));
    if (m == 1) p.channels[1] = p.channels[0]; if (m == 2) p.channels[2] = p.channels[1]; if (m == 3) p.channels[2] = p.channels[0]; if (m == 4) p.channels[1] = p.channels[2] = p.channels[0];
    return p;
}
static HSV ghsv(Src& s)
{
    HSV h; h.channels[0] = s.flip() ? static_cast<double>(60 * s.uz(0, 5)) : std::min(359.999, s.unit() * 360); h.channels[1] = s.pick({0.0, 1.0, 0.5, s.unit()}); h.channels[2] = s.pick({0.0, 255.0, static_cast<double>(s.draw(255)), s.unit() * 255, s.unit() * 600}); return h;
}
PROP(rgb_to_hsv_pixel, "not all channels equal")
{
    RGB p = gcol(s); s.desc << ps(p); s.nontrivial(!(p.channels[0] == p.channels[1] && p.channels[1] == p.channels[2])); req_hsv(rgb2hsv(p), p);
    RGB_DOUBLE d{p.channels[0] + 0.25, p.channels[1] + 0.5, p.channels[2] + 0.0}; req_hsv(rgb2hsv(d), p);
}
PROP(hsv_to_rgb_pixel, "coloured") { HSV h = ghsv(s); s.desc << ps(h); s.nontrivial(h.channels[1] > 0 && h.channels[2] > 0); req_rgb(hsv2rgb(h), h); }
PROP(round_trip, "not all channels equal")
{
    RGB p = gcol(s); s.desc << ps(p); s.nontrivial(!(p.channels[0] == p.channels[1] && p.channels[1] == p.channels[2]));
    RGB q = hsv2rgb(rgb2hsv(p)); int mp = std::max({p.channels[0], p.channels[1], p.channels[2]}), mq = std::max({q.channels[0], q.channels[1], q.channels[2]}), np = std::min({p.channels[0], p.channels[1], p.channels[2]}), nq = std::min({q.channels[0], q.channels[1], q.channels[2]});
    REQ(mp == mq && std::abs(np - nq) <= 1, ps(p) << " comes back as " << ps(q)); for (int k = 0; k < 3; ++k) REQ(std::abs(p.channels[k] - q.channels[k]) <= 7, ps(p) << " comes back as " << ps(q));
}
PROP(images, "more than one pixel")
{
    Sz z = dims(s, 1, 3, 1, 5, true); auto a = gen(s, z, gcol); s.desc << show(a, 6); s.nontrivial(a.count() > 1);
    auto h = rgb2hsv(a), hp = rgb2hsv(std::execution::par, a), hs = rgb2hsv(std::execution::seq, a); req_eq(hp, h, "parallel form"); req_eq(hs, h, "sequential form"); REQ(h.getSize() == z, "size " << str(h.getSize()));
    for (std::size_t i = 0; i < a.count(); ++i) req_hsv(data(h)[i], data(a)[i]);
    auto b = gen(s, z, ghsv); auto r = hsv2rgb(b); req_eq(hsv2rgb(std::execution::par, b), r, "parallel form"); req_eq(hsv2rgb(std::execution::seq, b), r, "sequential form"); REQ(r.getSize() == z, "size " << str(r.getSize()));
    for (std::size_t i = 0; i < b.count(); ++i) req_rgb(data(r)[i], data(b)[i]);
    auto hd = rgb2hsv(im2double(a)); req_eq(hd, h, "from doubles");
}
PROP(hue_scale, "a non-zero gray level")
{
    auto v = static_cast<std::uint8_t>(s.draw(255)); Sz z = dims(s, 1, 3, 1, 3, true); auto a = bimg(s, z); a.set(0) = v; s.desc << show(a, 6); s.nontrivial(v > 0);
    auto r = Grayscale2RGB(a); REQ(r.getSize() == z, "size"); for (std::size_t i = 0; i < a.count(); ++i) { HSV h; h.channels[0] = data(a)[i] * 360.0 / 256; h.channels[1] = 1; h.channels[2] = 255; req_rgb(data(r)[i], h); REQ(same(data(r)[i], Grayscale2RGB(static_cast<GrayScale>(data(a)[i]))), "image and pixel forms differ"); }
}
PROP(brighten, "not black")
{
    Sz z = wide2(s, 4, 4); auto a = gen(s, z, gcol); double t = s.pick({1.0, 0.5, 2.0, 1.25, s.unit() * 4, 0.0}); s.desc << show(a, 6) << " times " << t; bool nb = false; for (auto& p : data(a)) nb = nb || p.channels[0] + p.channels[1] + p.channels[2] > 0; s.nontrivial(nb && t != 1);
    auto r = increase_intensity(a, t); auto rd = increase_intensity(im2double(a), t); req_eq(rd, r, "double form"); REQ(r.getSize() == z, "size");
    for (std::size_t i = 0; i < a.count(); ++i) {
        auto &p = data(a)[i], &q = data(r)[i]; double m = std::max({p.channels[0], p.channels[1], p.channels[2]}) * t; int mq = std::max({q.channels[0], q.channels[1], q.channels[2]});
        REQ(mq == static_cast<int>(std::trunc(std::min(255.0, m + 1e-9))) || mq == static_cast<int>(std::trunc(std::min(255.0, m - 1e-9))), ps(p) << " times " << t << " gives " << ps(q) << ", largest channel expected " << std::min(255.0, m));
        HSV h = hsv_of(p); h.channels[2] *= t; req_rgb(q, h);
    }
}
PROP(planes_rgb, "more than one pixel")
{
    Sz z = dims(s, 1, 3, 1, 5, true); auto a = rgbimg(s, z); s.desc << show(a, 6); s.nontrivial(a.count() > 1);
    Image<GrayScale> P[3]; for (std::size_t k = 0; k < 3; ++k) { P[k] = getPlane(a, k); REQ(P[k].getSize() == z, "plane size"); for (std::size_t i = 0; i < a.count(); ++i) REQ(data(P[k])[i] == data(a)[i].channels[k], "plane " << k << " element " << i); }
    req_eq(getRplane(a), P[0], "red plane"); req_eq(getGplane(a), P[1], "green plane"); req_eq(getBplane(a), P[2], "blue plane"); req_eq(constructRGB(P[0], P[1], P[2]), a, "planes put together");
    auto d = im2double(a); REQ(d.getSize() == z, "double size"); for (std::size_t i = 0; i < a.count(); ++i) for (int k = 0; k < 3; ++k) REQ(data(d)[i].channels[k] == data(a)[i].channels[k], "as doubles: element " << i);
    req_eq(im2uint8(d), a, "to doubles and back"); req_eq(convert_image<RGB>(convert_image<HSV>(a)), a, "converted and back");
    auto g0 = P[0]; auto gd_ = im2double(g0); for (std::size_t i = 0; i < g0.count(); ++i) REQ(data(gd_)[i] == data(g0)[i], "gray as double"); req_eq(im2uint8(gd_), g0, "gray to double and back");
    auto ns = apply_each_single_output(3, a, [](auto&& pl) { return pl.count() + pl.getImageData()[0]; }); REQ(ns.size() == 3, "three results"); for (int k = 0; k < 3; ++k) REQ(static_cast<std::size_t>(ns[static_cast<std::size_t>(k)]) == a.count() + data(a)[0].channels[k], "result of channel " << k);
}
template<class P> static Image<P> d3(Src& s, const Sz& z) { return gen(s, z, [](Src& t) { P p; for (auto& c : p.channels) c = gd(t); return p; }); }
PROP(planes_double, "more than one pixel")
{
    Sz z = dims(s, 1, 3, 1, 5, true); auto a = d3<RGB_DOUBLE>(s, z); auto h = d3<HSV>(s, z); s.desc << show(a, 4) << show(h, 4); s.nontrivial(a.count() > 1);
    Image<double> P[3], Q[3]; for (std::size_t k = 0; k < 3; ++k) { P[k] = getPlane(a, k); Q[k] = getPlane(h, k); for (std::size_t i = 0; i < a.count(); ++i) REQ(data(P[k])[i] == data(a)[i].channels[k] && data(Q[k])[i] == data(h)[i].channels[k], "plane " << k << " element " << i); }
    req_eq(getRplane(a), P[0], "red"); req_eq(getGplane(a), P[1], "green"); req_eq(getBplane(a), P[2], "blue"); req_eq(getHplane(h), Q[0], "hue"); req_eq(getSplane(h), Q[1], "saturation"); req_eq(getVplane(h), Q[2], "value");
    req_eq(constructRGBDOUBLE(P[0], P[1], P[2]), a, "planes put together"); req_eq(constructHSV(Q[0], Q[1], Q[2]), h, "planes put together");
    auto c = convert_image<HSV>(a); for (std::size_t i = 0; i < a.count(); ++i) for (int k = 0; k < 3; ++k) REQ(data(c)[i].channels[k] == data(a)[i].channels[k], "converted element " << i);
}
PROP(multichannel, "more than one pixel")
{
    Sz z = dims(s, 1, 3, 1, 4, true); std::vector<Image<int>> v; for (int k = 0; k < 5; ++k) v.push_back(iimg(s, z)); s.desc << show(v[0], 4); s.nontrivial(v[0].count() > 1);
    auto c1 = constructMultiChannel(v[0]); auto c2 = constructMultiChannel(v[0], v[1]); auto c3 = constructMultiChannel(v[0], v[1], v[2]); auto c4 = constructMultiChannel(v[0], v[1], v[2], v[3]); auto c5 = constructMultiChannel(v[0], v[1], v[2], v[3], v[4]);
    auto chk = [&](const auto& c, std::size_t n) { REQ(c.getSize() == z, "size"); for (std::size_t k = 0; k < n; ++k) { auto p = getPlane(c, k); req_eq(p, v[k], "plane " + std::to_string(k) + " of " + std::to_string(n)); for (std::size_t i = 0; i < v[k].count(); ++i) REQ(data(c)[i].channels[k] == data(v[k])[i], "channel " << k << " of " << n); }
        REQ(throws<std::runtime_error>([&] { getPlane(c, n); }), "a plane beyond the last is not refused"); };
    chk(c1, 1); chk(c2, 2); chk(c3, 3); chk(c4, 4); chk(c5, 5);
    chk(addChannel(c1, v[1]), 2); chk(addChannel(c2, v[2], v[3]), 4);
    auto op = [](const Image<int>& p) { auto q = p; for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = data(p)[i] * 3 + 1; return q; };
    auto c3a = apply_each(c3, op); auto c4a = apply_each(c4, op); auto c2a = apply_each(c2, op);
    for (std::size_t i = 0; i < v[0].count(); ++i) { for (std::size_t k = 0; k < 3; ++k) REQ(data(c3a)[i].channels[k] == data(v[k])[i] * 3 + 1, "mapped channel " << k); for (std::size_t k = 0; k < 4; ++k) REQ(data(c4a)[i].channels[k] == data(v[k])[i] * 3 + 1, "mapped channel " << k << " of 4"); for (std::size_t k = 0; k < 2; ++k) REQ(data(c2a)[i].channels[k] == data(v[k])[i] * 3 + 1, "mapped channel " << k << " of 2"); }
}
PROP(each_plane, "more than one pixel")
{
    Sz z = dims(s, 1, 2, 1, 4, true); auto a = rgbimg(s, z), b = rgbimg(s, z); auto h = d3<HSV>(s, z); auto e = d3<RGB_DOUBLE>(s, z), e2 = d3<RGB_DOUBLE>(s, z); int m = static_cast<int>(s.draw(9)); s.desc << show(a, 4) << " with " << m; s.nontrivial(a.count() > 1);
    auto r = apply_each(a, [](const Image<GrayScale>& p, int k) { auto q = p; for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = static_cast<GrayScale>(data(p)[i] / (k + 1)); return q; }, m);
    auto rd = apply_each(a, [](const Image<GrayScale>& p) { Image<double> q(std::vector<double>(p.count()), p.getSize()); for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = data(p)[i] + 0.5; return q; });
    auto ri = apply_each(a, [](const Image<GrayScale>& p) { Image<int> q(std::vector<int>(p.count()), p.getSize()); for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = 1000 + data(p)[i]; return q; });
    auto rh = apply_each(h, [](const Image<double>& p) { auto q = p; for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = -data(p)[i]; return q; }); auto re = apply_each(e, [](const Image<double>& p) { auto q = p; for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = -data(p)[i]; return q; });
    auto r2 = apply_each(a, b, [](const Image<GrayScale>& p, const Image<GrayScale>& o) { auto q = p; for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = static_cast<GrayScale>(data(p)[i] / 2 + data(o)[i] / 3); return q; });
    auto e3 = apply_each(e, e2, [](const Image<double>& p, const Image<double>& o) { auto q = p; for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = data(p)[i] * 2 - data(o)[i]; return q; });
    auto h2 = d3<HSV>(s, z); auto two = [](const auto& p, const auto& o) { auto q = p; for (std::size_t i = 0; i < q.count(); ++i) q.set(i) = data(p)[i] * 2 - data(o)[i]; return q; }; auto h3 = apply_each(h, h2, two);
    std::vector<Image<int>> pl; for (int k = 0; k < 6; ++k) pl.push_back(iimg(s, z)); auto m3 = apply_each(constructMultiChannel(pl[0], pl[1], pl[2]), constructMultiChannel(pl[3], pl[4], pl[5]), two);
    for (std::size_t i = 0; i < a.count(); ++i) for (std::size_t k = 0; k < 3; ++k) { REQ(close(data(h3)[i].channels[k], data(h)[i].channels[k] * 2 - data(h2)[i].channels[k]), "two hsv images, channel " << k); REQ(data(m3)[i].channels[k] == data(pl[k])[i] * 2 - data(pl[k + 3])[i], "two multi-channel images, channel " << k); }
    for (std::size_t i = 0; i < a.count(); ++i) for (std::size_t k = 0; k < 3; ++k) {
        auto c = data(a)[i].channels[k]; REQ(data(r)[i].channels[k] == c / (m + 1), "byte result, channel " << k); REQ(data(rd)[i].channels[k] == c + 0.5, "double result, channel " << k); REQ(data(ri)[i].channels[k] == 1000 + c, "integer result, channel " << k);
        REQ(data(rh)[i].channels[k] == -data(h)[i].channels[k], "hsv, channel " << k); REQ(data(re)[i].channels[k] == -data(e)[i].channels[k], "double colour, channel " << k);
        REQ(data(r2)[i].channels[k] == c / 2 + data(b)[i].channels[k] / 3, "two images, channel " << k); REQ(data(e3)[i].channels[k] == data(e)[i].channels[k] * 2 - data(e2)[i].channels[k], "two double images, channel " << k);
    }
    static_assert(std::same_as<decltype(r), Image<RGB>> && std::same_as<decltype(rd), Image<RGB_DOUBLE>>);
}
PROP(refusals, "sizes with the same number of pixels")
{
    Sz z = wide2(s, 4, 4), y = z; if (s.flip() && z[0] != z[1]) std::swap(y[0], y[1]); else y[s.draw(1)] += s.sz(1, 2); s.desc << str(z) << " with " << str(y); s.nontrivial(prod(z) == prod(y));
    auto a = bimg(s, z), b = bimg(s, y); auto d = dimg(s, z), e = dimg(s, y); auto t = [&](const char* w, auto f) { REQ(throws_any(f), w << " accepts planes of different sizes"); };
    t("constructRGB", [&] { constructRGB(a, a, b); }); t("constructRGB", [&] { constructRGB(a, b, b); }); t("constructRGB", [&] { constructRGB(b, a, a); }); t("constructRGBDOUBLE", [&] { constructRGBDOUBLE(d, d, e); }); t("constructRGBDOUBLE", [&] { constructRGBDOUBLE(e, d, d); }); t("constructHSV", [&] { constructHSV(d, d, e); }); t("constructHSV", [&] { constructHSV(e, d, d); });
    t("constructMultiChannel", [&] { constructMultiChannel(a, b); }); t("constructMultiChannel", [&] { constructMultiChannel(a, a, b); }); t("constructMultiChannel", [&] { constructMultiChannel(b, a, a); }); t("constructMultiChannel", [&] { constructMultiChannel(a, a, a, b); }); t("addChannel", [&] { addChannel(constructMultiChannel(a, a), b); });
}
