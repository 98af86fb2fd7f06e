// C17: windowed and bilateral filters
#include "img.h"
using namespace g;
using namespace TinyDIP;
typedef long double L;

template<class T> static T padded(const Image<T>& a, int kind, long x, long y, const T& cv)     // 0 constant, 1 mirror, 2 replicate
{
    long w = static_cast<long>(a.getWidth()), h = static_cast<long>(a.getHeight());
    if (x >= 0 && y >= 0 && x < w && y < h) return px(a, static_cast<std::size_t>(x), static_cast<std::size_t>(y));
    if (kind == 0) return cv;
    auto m = [&](long v, long n) { if (kind == 1) { if (v < 0) v = -v; else if (v >= n) v = 2 * (n - 1) - v; return v; } return std::clamp(v, 0L, n - 1); };
    return px(a, static_cast<std::size_t>(m(x, w)), static_cast<std::size_t>(m(y, h)));
}
static BoundaryCondition bcs[] = {BoundaryCondition::constant, BoundaryCondition::mirror, BoundaryCondition::replicate};
template<class T> static std::vector<T> win2(const Image<T>& a, const Sz& q, std::size_t x, std::size_t y, int kind, T cv)
{
    std::vector<T> r; for (std::size_t j = 0; j < q[1]; ++j) for (std::size_t i = 0; i < q[0]; ++i) r.push_back(padded(a, kind, static_cast<long>(x + i) - static_cast<long>(q[0] / 2), static_cast<long>(y + j) - static_cast<long>(q[1] / 2), cv)); return r;
}
// a filter that tells every position of the window apart
template<class T> static double weighed(const std::vector<T>& d) { double r = 0; for (std::size_t i = 0; i < d.size(); ++i) r += static_cast<double>(d[i]) * static_cast<double>(1 + 7 * i + i * i); return r; }

PROPW(windows_2d, 3, "a window larger than one pixel over more than one pixel")
{
    Sz z = wide2(s, 8, 8), q{s.tail(1, 5, 14), s.tail(1, 5, 14)}; auto a = dimg(s, z); int kind = static_cast<int>(s.draw(2)); double cv = gd(s); s.desc << show(a, 6) << " window " << str(q) << " border " << kind; s.nontrivial(prod(q) > 1 && prod(z) > 1);
    std::vector<int> qi(q.begin(), q.end()); auto f = [](const Image<double>& w) { return weighed(data(w)); };
    if (kind == 1 && (q[0] >= z[0] || q[1] >= z[1])) { REQ(throws<std::runtime_error>([&] { windowed_filter(std::execution::seq, a, q, f, bcs[kind], cv); }), "a mirror border wider than the image is accepted"); return; }
    std::atomic<std::size_t> bad{0}, calls{0}; auto fc = [&](const Image<double>& w) { ++calls; if (w.getSize() != q) ++bad; return weighed(data(w)); };
    std::vector<double> v; for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) v.push_back(weighed(win2(a, q, x, y, kind, cv))); Image<double> want(v, z), orig = a;
    req_eq(windowed_filter(std::execution::seq, a, q, fc, bcs[kind], cv), want, "windowed_filter"); REQ(bad == 0, "a window has the wrong size"); REQ(calls == a.count(), "filter called " << calls.load() << " times for " << a.count() << " pixels");
    req_eq(windowed_filter(std::execution::par, a, q, f, bcs[kind], cv), want, "windowed_filter par"); req_eq(windowed_filter(std::execution::seq, a, qi, f, bcs[kind], cv), want, "windowed_filter with int sizes"); req_eq(a, orig, "input");
    std::vector<double> pr; auto cb = [&](double p) { pr.push_back(p); }; req_eq(windowed_filter(std::execution::seq, a, q, f, bcs[kind], cv, cb), want, "windowed_filter with progress"); REQ(!pr.empty(), "no progress reported"); for (std::size_t i = 0; i < pr.size(); ++i) REQ(pr[i] > 0 && pr[i] <= 1 && (i == 0 || pr[i] > pr[i - 1]), "progress " << pr[i]);
    if (q[0] < z[0] && q[1] < z[1]) { std::vector<double> u; for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) u.push_back(weighed(win2(a, q, x, y, 1, 0.0))); req_eq(windowed_filter(std::execution::seq, a, q, f), Image<double>(u, z), "default border"); }
    Sz wrong = s.flip() ? Sz{q[0]} : Sz{q[0], q[1], 1}; REQ(throws<std::runtime_error>([&] { windowed_filter(std::execution::seq, a, wrong, f); }), "window of another dimensionality accepted");
}
PROP(windows_order, "a window larger than one pixel")
{   // median and maximum of bytes
    Sz z = wide2(s, 8, 8), q{1 + 2 * s.draw(1), 1 + 2 * s.draw(2)}; auto a = bimg(s, z); int kind = s.flip() ? 0 : 2; std::uint8_t cv = gb(s); s.desc << show(a, 6) << " window " << str(q) << " border " << kind; s.nontrivial(prod(q) > 1);
    auto med = [](auto v) { std::sort(v.begin(), v.end()); return v[v.size() / 2]; }; auto mx = [](const auto& v) { return *std::max_element(v.begin(), v.end()); }; std::vector<std::uint8_t> vm, vx; for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) { auto w = win2(a, q, x, y, kind, cv); vm.push_back(med(w)); vx.push_back(mx(w)); }
    req_eq(windowed_filter(std::execution::par, a, q, [&](const Image<std::uint8_t>& w) { return med(data(w)); }, bcs[kind], cv), Image<std::uint8_t>(vm, z), "median"); req_eq(windowed_filter(std::execution::seq, a, q, [&](const Image<std::uint8_t>& w) { return mx(data(w)); }, bcs[kind], cv), Image<std::uint8_t>(vx, z), "maximum");
}
PROP(windows_nd, "a window larger than one pixel")
{
    Sz z = s.flip() ? dims(s, 1, 1, 1, 8) : dims(s, 3, 4, 1, 4), q; for (std::size_t i = 0; i < z.size(); ++i) q.push_back(s.sz(1, z.size() == 1 ? 5 : 3)); auto a = dimg(s, z); s.desc << str(z) << " window " << str(q); s.nontrivial(prod(q) > 1 && prod(z) > 1);
    std::vector<double> v; for (std::size_t i = 0; i < a.count(); ++i) { Sz c = coord(i, z); std::vector<double> w; for (std::size_t k = 0; k < prod(q); ++k) { Sz o = coord(k, q), p(z.size()); bool in = true; for (std::size_t d = 0; d < z.size(); ++d) { long t = static_cast<long>(c[d] + o[d]) - static_cast<long>(q[d] / 2); in = in && t >= 0 && t < static_cast<long>(z[d]); p[d] = static_cast<std::size_t>(t); } w.push_back(in ? data(a)[flat(p, z)] : 0.0); } v.push_back(weighed(w)); }
    auto f = [](const Image<double>& w) { return weighed(data(w)); }; req_eq(windowed_filter(std::execution::seq, a, q, f), Image<double>(v, z), "windowed_filter"); req_eq(windowed_filter(std::execution::par, a, q, f), Image<double>(v, z), "windowed_filter par");
}
static L bil(const std::vector<double>& w, const Sz& q, double sr, double ss)
{
    L num = 0, den = 0; std::size_t ci = q[0] / 2, cj = q[1] / 2; L c = w[cj * q[0] + ci]; for (std::size_t j = 0; j < q[1]; ++j) for (std::size_t i = 0; i < q[0]; ++i) { L p = w[j * q[0] + i], dx = L(i) - L(ci), dy = L(j) - L(cj), k = std::exp(-(p - c) * (p - c) / (2 * L(sr) * sr)) * std::exp(-(dx * dx + dy * dy) / (2 * L(ss) * ss)); num += k * p; den += k; } return num / den;
}
PROPW(bilateral, 2, "a window larger than one pixel")
{
    Sz z{s.sz(2, 7), s.sz(2, 7)}, q{s.tail(1, 5, 12), s.tail(1, 5, 12)}; auto a = dimg(s, z); int kind = static_cast<int>(s.draw(2)); double cv = gd(s), sr = s.real(0.5, 60), ss = s.real(0.4, 5); s.desc << show(a, 6) << " window " << str(q) << " border " << kind << " sd " << sr << "," << ss; s.nontrivial(prod(q) > 1);
    const double fr = s.pick({1.0, 1.0, 1e-6, 40.0}), fs = s.pick({1.0, 1.0, 1e-3, 7.0}); auto rk = [&](double d) { return fr * std::exp(-d * d / (2 * sr * sr)); }; auto sk = [&](double d) { return fs * std::exp(-d * d / (2 * ss * ss)); };   // the scale of a kernel cancels
   
    if (kind == 1 && (q[0] >= z[0] || q[1] >= z[1])) { REQ(throws<std::runtime_error>([&] { bilateral_filter(std::execution::seq, a, q, rk, sk, bcs[kind]); }), "a mirror border wider than the image is accepted"); return; }
    auto ref = [&](const Image<double>& im, double c0) { std::vector<double> v; for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) v.push_back(static_cast<double>(bil(win2(im, q, x, y, kind, c0), q, sr, ss))); return Image<double>(v, z); };
    std::vector<int> qi(q.begin(), q.end()); req_close(bilateral_filter(std::execution::seq, a, q, rk, sk, bcs[kind], nullptr, cv), ref(a, cv), 1e-9, 1e-9, "bilateral_filter"); req_close(bilateral_filter(std::execution::par, a, q, rk, sk, bcs[kind], nullptr, cv), ref(a, cv), 1e-9, 1e-9, "bilateral_filter par"); req_close(bilateral_filter(a, q, rk, sk, bcs[kind]), ref(a, 0), 1e-9, 1e-9, "bilateral_filter without policy"); req_close(bilateral_filter(std::execution::seq, a, qi, rk, sk, bcs[kind], nullptr, cv), ref(a, cv), 1e-9, 1e-9, "bilateral_filter with int sizes");
    auto b = bimg(s, z); std::vector<double> bd(data(b).begin(), data(b).end()); auto w = ref(Image<double>(bd, z), 0); auto o = bilateral_filter(std::execution::seq, b, q, rk, sk, bcs[kind]); for (std::size_t i = 0; i < o.count(); ++i) { double e = data(w)[i]; REQ(data(o)[i] <= e + 1e-6 && data(o)[i] >= e - 1 - 1e-6, "byte result " << +data(o)[i] << " expected " << e << " truncated"); }
    double lo = data(a)[0], hi = lo; for (auto v : data(a)) { lo = std::min(lo, v); hi = std::max(hi, v); } if (kind) { auto t = bilateral_filter(a, q, rk, sk, bcs[kind]); for (auto v : data(t)) REQ(v >= lo - 1e-9 && v <= hi + 1e-9, "result outside the range of the input"); }
}
PROP(bilateral_colour, "a window larger than one pixel")
{
    Sz z{s.sz(4, 6), s.sz(4, 6)}, q{s.sz(1, 3), s.sz(1, 3)}; int kind = static_cast<int>(s.draw(2)); double sr = s.real(5, 60), ss = s.real(0.4, 5); s.desc << str(z) << " window " << str(q) << " border " << kind; s.nontrivial(prod(q) > 1);
    const double fr = s.pick({1.0, 1.0, 1e-6, 40.0}), fs = s.pick({1.0, 1.0, 1e-3, 7.0}); auto rk = [&](double d) { return fr * std::exp(-d * d / (2 * sr * sr)); }; auto sk = [&](double d) { return fs * std::exp(-d * d / (2 * ss * ss)); };   // the scale of a kernel cancels
   
    auto one = [&](const auto& im, bool trunc) { auto o = bilateral_filter(std::execution::seq, im, q, rk, sk, bcs[kind]); REQ(o.getSize() == z, "size"); std::size_t nc = std::size(data(im)[0].channels); for (std::size_t c = 0; c < nc; ++c) { std::vector<double> v; for (auto& p : data(im)) v.push_back(static_cast<double>(p.channels[c])); Image<double> pl(v, z); for (std::size_t i = 0; i < pl.count(); ++i) { double e = static_cast<double>(bil(win2(pl, q, i % z[0], i / z[0], kind, 0.0), q, sr, ss)), t = static_cast<double>(data(o)[i].channels[c]); REQ(trunc ? (t <= e + 1e-6 && t >= e - 1 - 1e-6) : close(t, e, 1e-9, 1e-9), "channel " << c << " of pixel " << i << " is " << t << " expected " << e); } } };
    switch (s.draw(2)) { case 0: one(rgbimg(s, z), true); break; case 1: one(gen(s, z, [](Src& t) { RGB_DOUBLE p; for (auto& c : p.channels) c = gd(t); return p; }), false); break; default: one(gen(s, z, [](Src& t) { MultiChannel<double, 2> p; for (auto& c : p.channels) c = gd(t); return p; }), false); }
}
PROP(bilateral_complex, "a window larger than one pixel")
{   // complex pixels, weighed by the distance in the plane
    typedef std::complex<double> Z; Sz z{s.sz(4, 6), s.sz(4, 6)}, q{s.sz(1, 3), s.sz(1, 3)}; int kind = static_cast<int>(s.draw(2)); double sr = s.real(5, 60), ss = s.real(0.4, 5); s.desc << str(z) << " window " << str(q) << " border " << kind; s.nontrivial(prod(q) > 1); Image<Z> a = gen(s, z, [](Src& t) { return Z(gd(t), gd(t)); });
    auto rk = [&](Z d) { return Z(std::exp(-std::norm(d) / (2 * sr * sr)), 0); }; auto sk = [&](double d) { return std::exp(-d * d / (2 * ss * ss)); };
    auto o = bilateral_filter(std::execution::seq, a, q, rk, sk, bcs[kind]), op = bilateral_filter(std::execution::par, a, q, rk, sk, bcs[kind]); REQ(o.getSize() == z && op.getSize() == z, "size");
    for (std::size_t i = 0; i < a.count(); ++i) { auto w = win2(a, q, i % z[0], i / z[0], kind, Z{}); std::size_t ci = q[0] / 2, cj = q[1] / 2; Z c = w[cj * q[0] + ci], num; double den = 0; for (std::size_t j = 0; j < prod(q); ++j) { double dx = static_cast<double>(j % q[0]) - static_cast<double>(ci), dy = static_cast<double>(j / q[0]) - static_cast<double>(cj), k = std::exp(-std::norm(w[j] - c) / (2 * sr * sr)) * std::exp(-(dx * dx + dy * dy) / (2 * ss * ss)); num += w[j] * k; den += k; } Z e = num / den; REQ(std::abs(data(o)[i] - e) <= 1e-9 * (1 + std::abs(e)) && std::abs(data(op)[i] - e) <= 1e-9 * (1 + std::abs(e)), "pixel " << i << " is " << data(o)[i] << " expected " << e); }
}
PROP(patches, "patches differ")
{   // the distance and weight used to compare patches
    Sz z = wide2(s, 7, 7), q{s.sz(1, 3), s.sz(1, 3)}; auto a = dimg(s, z); std::vector<std::size_t> p{s.draw(z[0] - 1), s.draw(z[1] - 1)}, r{s.draw(z[0] - 1), s.draw(z[1] - 1)}; double h = s.real(0.2, 20), d = s.real(0, 50); s.desc << show(a, 6) << " patch " << str(q) << " at " << str(p) << " and " << str(r); s.nontrivial(p != r);
    auto u = win2(a, q, p[0], p[1], 0, 0.0), v = win2(a, q, r[0], r[1], 0, 0.0); L e = 0; for (std::size_t i = 0; i < u.size(); ++i) e += (L(u[i]) - v[i]) * (L(u[i]) - v[i]); double got = DefaultPatchDistance<double>{}(a, p, r, q); REQ(close(got, static_cast<double>(e / u.size()), 1e-10, 1e-12), "patch distance " << got << " expected " << static_cast<double>(e / u.size()));
    auto b = bimg(s, z); auto bu = win2(b, q, p[0], p[1], 0, std::uint8_t{}), bv = win2(b, q, r[0], r[1], 0, std::uint8_t{}); e = 0; for (std::size_t i = 0; i < bu.size(); ++i) e += (L(bu[i]) - bv[i]) * (L(bu[i]) - bv[i]); got = DefaultPatchDistance<std::uint8_t>{}(b, p, r, q); REQ(close(got, static_cast<double>(e / bu.size()), 1e-10, 1e-12), "patch distance of bytes " << got);
    auto a2 = dimg(s, z); auto cx = generate_complex_image(a, a2); auto u2 = win2(a2, q, p[0], p[1], 0, 0.0), v2 = win2(a2, q, r[0], r[1], 0, 0.0); e = 0; for (std::size_t i = 0; i < u.size(); ++i) e += (L(u[i]) - v[i]) * (L(u[i]) - v[i]) + (L(u2[i]) - v2[i]) * (L(u2[i]) - v2[i]); got = DefaultPatchDistance<std::complex<double>>{}(cx, p, r, q); REQ(close(got, static_cast<double>(e / u.size()), 1e-10, 1e-12), "patch distance of complex pixels " << got << " expected " << static_cast<double>(e / u.size()));
    REQ(close(DefaultWeightCalculation<double>(h)(d), std::exp(-d / (h * h)), 1e-12, 0), "weight");
    auto c = get_center_pixel(a); REQ(c == px(a, z[0] / 2, z[1] / 2), "centre pixel"); auto cl = get_center_location(std::execution::seq, a); REQ(cl.size() == 2 && cl[0] == z[0] / 2 && cl[1] == z[1] / 2, "centre location");
    Sz y = dims(s, 1, 4, 1, 4); auto n = dimg(s, y); Sz cc; for (auto k : y) cc.push_back(k / 2); REQ(get_center_pixel(std::execution::seq, n) == data(n)[flat(cc, y)], "centre pixel of " << str(y));
}
