// C11: interpolation, rotation and fisheye warps
#include "img.h"
#include <set>
#include <map>
using namespace g;
using namespace TinyDIP;
typedef long double L;
static const L PI = std::numbers::pi_v<L>;

static Sz sz2(Src& s, std::size_t hi = 9) { return wide2(s, hi, hi); }
static std::uint8_t gbyte(Src& s) { return gb(s); }
// distinct non-zero doubles, so that a moved pixel is recognised
static Image<double> ids(const Sz& z) { std::vector<double> v(prod(z)); for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<double>(i + 1); return Image<double>(v, z); }

static L bil(const std::vector<double>& d, const Sz& z, L x, L y)
{
    L w = z[0], h = z[1];
    if (x < 0 || x > w - 1 || y < 0 || y > h - 1) return 0;
    std::size_t x1 = static_cast<std::size_t>(x), y1 = static_cast<std::size_t>(y), x2 = std::min(x1 + 1, z[0] - 1), y2 = std::min(y1 + 1, z[1] - 1);
    L dx = x - x1, dy = y - y1;
    auto q = [&](std::size_t a, std::size_t b) { return static_cast<L>(d[b * z[0] + a]); };
    return (q(x1, y1) * (1 - dx) + q(x2, y1) * dx) * (1 - dy) + (q(x1, y2) * (1 - dx) + q(x2, y2) * dx) * dy;
}
static L cubk(L x)
{
    L a = -0.5L, t = std::fabs(x);
    if (t <= 1) return (a + 2) * t * t * t - (a + 3) * t * t + 1;
    if (t < 2) return a * t * t * t - 5 * a * t * t + 8 * a * t - 4 * a;
    return 0;
}
static L bicub(const std::vector<double>& d, const Sz& z, L x, L y)
{
    L w = z[0], h = z[1];
    if (x < 1 || x >= w - 2 || y < 1 || y >= h - 2) return bil(d, z, x, y);
    long fx = static_cast<long>(std::floor(x)), fy = static_cast<long>(std::floor(y)); L t = 0;
    for (long j = fy - 1; j <= fy + 2; ++j) for (long i = fx - 1; i <= fx + 2; ++i) t += static_cast<L>(d[static_cast<std::size_t>(j) * z[0] + static_cast<std::size_t>(i)]) * cubk(x - i) * cubk(y - j);
    return t;
}
// is got what the interpolant gives at (x,y), or within eps of it on either side of a discontinuity?
template<class T> static bool fits(double got, L want, L tol)
{
    if constexpr (std::is_integral_v<T>) {
        L lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
        return got >= std::trunc(std::clamp(want - tol, lo, hi)) && got <= std::trunc(std::clamp(want + tol, lo, hi));
    } else return std::fabs(static_cast<L>(got) - want) <= (std::is_same_v<T, float> ? std::max(tol, static_cast<L>(1e-4)) : tol);
}
template<class T, class F> static bool near(double got, F f, const std::vector<double>& d, const Sz& z, L x, L y, L eps, L tol)
{
    auto c = [&](L v) { std::vector<L> o{v, v + eps, v - eps}; if (std::fabs(v - std::round(v)) < eps) o.push_back(std::round(v)); return o; };
    for (L v : c(y)) for (L u : c(x)) if (fits<T>(got, f(d, z, u, v), tol)) return true;
    return false;
}
template<class T> static std::vector<double> dd(const Image<T>& a) { return std::vector<double>(data(a).begin(), data(a).end()); }

static double pos(Src& s, std::size_t n)   // a coordinate: inside, on the lattice, on the border, outside
{
    switch (s.draw(4)) {
        case 0: return static_cast<double>(s.uz(0, n - 1));
        case 1: return static_cast<double>(n) - 1 - static_cast<double>(s.draw(16)) / 16;
        case 2: return static_cast<double>(s.draw(32)) / 16;
        case 3: return static_cast<double>(s.draw(16 * n)) / 16;
        default: return static_cast<double>(s.in(-40, static_cast<long>(16 * n) + 40)) / 16;
    }
}
template<class T, class G> static void interp(Src& s, G gg)
{
    Sz z = sz2(s); auto a = gen(s, z, gg); auto d = dd(a); double x = pos(s, z[0]), y = pos(s, z[1]);
    s.desc << show(a, 9) << " at (" << x << "," << y << ")"; s.nontrivial(x >= 0 && y >= 0 && x <= static_cast<double>(z[0]) - 1 && y <= static_cast<double>(z[1]) - 1);
    double b = static_cast<double>(bilinear_interpolate(a, x, y)), c = static_cast<double>(default_bicubic_interpolator<T>{}(a, x, y));
    REQ(fits<T>(b, bil(d, z, x, y), 1e-10L), "bilinear " << b << " expected " << bil(d, z, x, y));
    REQ(fits<T>(c, bicub(d, z, x, y), 1e-9L), "bicubic " << c << " expected " << bicub(d, z, x, y));
}
PROP(interpolate_double, "the position lies inside the image") { interp<double>(s, gd); }
PROP(interpolate_byte, "the position lies inside the image") { interp<std::uint8_t>(s, gbyte); }
PROP(interpolate_int, "the position lies inside the image") { interp<int>(s, [](Src& t) { return static_cast<int>(t.sint(500)); }); }
PROP(interpolate_word, "the position lies inside the image") { interp<std::uint16_t>(s, [](Src& t) { return static_cast<std::uint16_t>(t.flip() ? t.draw(65535) : 65535 - t.draw(300)); }); }
PROP(interpolate_short, "the position lies inside the image") { interp<std::int16_t>(s, [](Src& t) { return static_cast<std::int16_t>(t.flip() ? t.sint(32767) : t.flip() ? 32767 - static_cast<int>(t.draw(90)) : -32768 + static_cast<int>(t.draw(90))); }); }
PROP(interpolate_float, "the position lies inside the image") { interp<float>(s, [](Src& t) { return static_cast<float>(gd(t)); }); }
PROP(interpolate_colour, "the position lies inside the image")
{
    Sz z = sz2(s, 6); auto a = rgbimg(s, z); double x = pos(s, z[0]), y = pos(s, z[1]);
    s.desc << show(a, 6) << " at (" << x << "," << y << ")"; s.nontrivial(x >= 0 && y >= 0 && x <= static_cast<double>(z[0]) - 1 && y <= static_cast<double>(z[1]) - 1);
    auto b = bilinear_interpolate(a, x, y); auto c = default_bicubic_interpolator<RGB>{}(a, x, y);
    Image<RGB_DOUBLE> ad(z[0], z[1]); for (std::size_t i = 0; i < prod(z); ++i) for (int k = 0; k < 3; ++k) ad.set(i).channels[k] = data(a)[i].channels[k] * 0.75;
    auto bd = bilinear_interpolate(ad, x, y); auto cd = default_bicubic_interpolator<RGB_DOUBLE>{}(ad, x, y);
    for (std::size_t k = 0; k < 3; ++k) {
        std::vector<double> d, e; for (auto& p : data(a)) { d.push_back(p.channels[k]); e.push_back(p.channels[k] * 0.75); }
        REQ(fits<std::uint8_t>(b.channels[k], bil(d, z, x, y), 1e-10L), "bilinear channel " << k << " is " << +b.channels[k] << " expected " << bil(d, z, x, y));
        REQ(fits<std::uint8_t>(c.channels[k], bicub(d, z, x, y), 1e-9L), "bicubic channel " << k << " is " << +c.channels[k] << " expected " << bicub(d, z, x, y));
        REQ(fits<double>(bd.channels[k], bil(e, z, x, y), 1e-9L), "bilinear double channel " << k); REQ(fits<double>(cd.channels[k], bicub(e, z, x, y), 1e-9L), "bicubic double channel " << k);
    }
}
PROP(kernel, "the argument is not an integer")
{
    double x = s.dyadic(4, 64); s.desc << x; s.nontrivial(x != std::floor(x));
    REQ(close(cubic_kernel(x), static_cast<double>(cubk(x)), 0, 1e-12), "kernel " << cubic_kernel(x) << " expected " << static_cast<double>(cubk(x)));
    double f = x - std::floor(x), t = 0; for (int i = -2; i <= 3; ++i) t += cubic_kernel(f - i); REQ(close(t, 1, 0, 1e-12), "weights sum to " << t);
}

static double angle(Src& s)
{
    switch (s.draw(3)) { case 0: return static_cast<double>(s.sint(64)) / 16; case 1: return static_cast<double>(s.sint(400)) * std::numbers::pi / 180; case 2: return s.real(-10, 10); default: return s.real(0, 1.6); }
}
// expected size and source position of the rotation about the centre
struct Rot { L c, s_; Sz z, n; L sx(std::size_t x, std::size_t y) const { L u = x - (n[0] - 1.0L) / 2, v = y - (n[1] - 1.0L) / 2; return u * c + v * s_ + (z[0] - 1.0L) / 2; } L sy(std::size_t x, std::size_t y) const { L u = x - (n[0] - 1.0L) / 2, v = y - (n[1] - 1.0L) / 2; return -u * s_ + v * c + (z[1] - 1.0L) / 2; } };
static Rot rot(const Sz& z, L r, const Sz& got)
{
    Rot o{std::cos(r), std::sin(r), z, got}; L w = z[0], h = z[1], nw = std::fabs(w * o.c) + std::fabs(h * o.s_), nh = std::fabs(h * o.c) + std::fabs(w * o.s_);
    auto ok = [](std::size_t g, L v) { return g == static_cast<std::size_t>(std::ceil(v - 1e-9L)) || g == static_cast<std::size_t>(std::ceil(v + 1e-9L)); };
    REQ(got.size() == 2 && ok(got[0], nw) && ok(got[1], nh), "size " << str(got) << " expected " << nw << " x " << nh << " rounded up");
    return o;
}
template<class T> static void check_rot(const Image<T>& r, const std::vector<double>& d, const Sz& z, L rad)
{
    Rot q = rot(z, rad, r.getSize());
    for (std::size_t y = 0; y < q.n[1]; ++y) for (std::size_t x = 0; x < q.n[0]; ++x)
        REQ((near<T>(static_cast<double>(px(r, x, y)), bicub, d, z, q.sx(x, y), q.sy(x, y), 1e-9L, 1e-6L)), "pixel " << x << "," << y << " is " << +px(r, x, y) << " expected " << bicub(d, z, q.sx(x, y), q.sy(x, y)));
}
template<class T, class G> static void rotation(Src& s, G gg)
{
    Sz z = sz2(s); auto a = gen(s, z, gg); double r = angle(s); s.desc << show(a, 6) << " by " << r; s.nontrivial(prod(z) > 1 && std::fabs(std::remainder(r, std::numbers::pi / 2)) > 1e-3);
    auto o = rotate_detail_shear_transformation(a, r);
    if (r == 0) req_eq(o, a, "no rotation");
    check_rot(o, dd(a), z, r);
}
PROP(rotation_double, "a non-trivial image by an angle that is no quarter turn") { rotation<double>(s, gd); }
PROP(rotation_byte, "a non-trivial image by an angle that is no quarter turn") { rotation<std::uint8_t>(s, gbyte); }
PROP(rotation_word, "a non-trivial image by an angle that is no quarter turn") { rotation<std::uint16_t>(s, [](Src& t) { return static_cast<std::uint16_t>(t.flip() ? t.draw(65535) : 65535 - t.draw(300)); }); }
PROP(rotation_degrees, "a non-trivial image")
{
    Sz z = sz2(s); auto a = ids(z); long deg = s.flip() ? 90 * s.sint(9) : s.sint(800); s.desc << str(z) << " by " << deg << " degrees"; s.nontrivial(prod(z) > 1 && deg % 360 != 0);
    auto o = rotate_detail_shear_transformation_degree(a, static_cast<int>(deg)); auto p = rotate_detail_shear_transformation_degree(a, static_cast<double>(deg));
    check_rot(o, dd(a), z, static_cast<L>(deg) * PI / 180); req_close(p, o, 0, 1e-9, "degrees as double and as int");
    if (deg % 360 == 0) req_close(o, a, 0, 1e-9, "whole turns");
    if (deg == 90) { Image<double> w(z[1], z[0]); for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) w.set(x * z[1] + (z[1] - 1 - y)) = px(a, x, y); req_close(o, w, 0, 1e-6, "a quarter turn moves the top row to the right column"); }
}
PROP(rotation_custom, "a non-trivial image")
{
    Sz z = sz2(s); auto a = dimg(s, z); double r = angle(s); s.desc << show(a, 6) << " by " << r; s.nontrivial(prod(z) > 1 && r != 0); if (r == 0) return;
    std::vector<std::pair<double, double>> seen; int wrong = 0;
    auto o = rotate_detail_shear_transformation(a, r, [&](const Image<double>& im, const double x, const double y) { seen.emplace_back(x, y); if (im.getSize() != z) ++wrong; return 1000 * x + y; });
    Rot q = rot(z, r, o.getSize()); REQ(wrong == 0, "the interpolator is given another image");
    for (std::size_t y = 0; y < q.n[1]; ++y) for (std::size_t x = 0; x < q.n[0]; ++x) REQ(close(px(o, x, y), static_cast<double>(1000 * q.sx(x, y) + q.sy(x, y)), 0, 1e-8), "pixel " << x << "," << y << " is sampled at the wrong place");
}
PROP(rotation_colour, "a non-trivial image by a non-zero angle")
{
    Sz z = sz2(s, 6); auto a = rgbimg(s, z); double r = angle(s); s.desc << show(a, 4) << " by " << r; s.nontrivial(prod(z) > 1 && r != 0);
    auto o = rotate_detail_shear_transformation(a, r);
    auto mc = gen(s, z, [](Src& t) { MultiChannel<double, 4> p; for (auto& c : p.channels) c = gd(t); return p; }); auto om = rotate_detail_shear_transformation(mc, r);
    for (std::size_t k = 0; k < 3; ++k) { std::vector<double> d; for (auto& p : data(a)) d.push_back(p.channels[k]); std::vector<std::uint8_t> v; for (auto& p : data(o)) v.push_back(p.channels[k]); check_rot(Image<std::uint8_t>(v, o.getSize()), d, z, r); }
    for (std::size_t k = 0; k < 4; ++k) { std::vector<double> d; for (auto& p : data(mc)) d.push_back(p.channels[k]); std::vector<double> v; for (auto& p : data(om)) v.push_back(p.channels[k]); check_rot(Image<double>(v, om.getSize()), d, z, r); }
}

// forward mappings: every source pixel lands where the formula says; nothing appears from elsewhere
template<class T, class F> static void splat(const Image<T>& r, const Image<T>& a, F where)
{
    const Sz z = a.getSize(); REQ(r.getSize() == z, "size " << str(r.getSize())); std::set<std::pair<long, long>> hit;
    auto near2 = [](L v, std::size_t n) { std::set<long> o; for (L e : {-1e-7L, 1e-7L}) { long t = static_cast<long>(std::trunc(v + e)); if (t >= 0 && t < static_cast<long>(n)) o.insert(t); } return o; };
    std::map<T, std::pair<std::set<long>, std::set<long>>> at;
    for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) {
        auto [u, v] = where(x, y); auto U = near2(u, z[0]), V = near2(v, z[1]); at[px(a, x, y)] = {U, V};
        if (U.size() == 1 && V.size() == 1) REQ(px(r, static_cast<std::size_t>(*U.begin()), static_cast<std::size_t>(*V.begin())) != 0, "pixel " << x << "," << y << " belongs at " << *U.begin() << "," << *V.begin() << " but nothing is there");
    }
    for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) if (T p = px(r, x, y); p != 0) {
        REQ(at.count(p), "unknown value " << +p); auto& [U, V] = at[p];
        REQ(U.count(static_cast<long>(x)) && V.count(static_cast<long>(y)), "value " << +p << " is at " << x << "," << y << " where its source does not map");
    }
}
static Image<double> quarter(const Image<double>& a) { const Sz z = a.getSize(); std::vector<double> v(prod(z)); for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) v[x * z[1] + (z[1] - 1 - y)] = px(a, x, y); return Image<double>(v, Sz{z[1], z[0]}); }
PROP(rotate_any, "more than one pixel, by more than a quarter turn")
{
    Sz z = sz2(s); auto a = ids(z); int form = static_cast<int>(s.draw(3)); L rad; Image<double> o;
    if (form == 0) { long q = s.sint(9); s.desc << q << " quarter turns in radians of " << str(z); rad = q * PI / 2; o = rotate(a, static_cast<double>(q) * (std::numbers::pi / 2)); }
    else if (form == 1) { long d = s.flip() ? 90 * s.sint(9) : s.sint(1000); s.desc << d << " degrees of " << str(z); rad = d * PI / 180; o = s.flip() ? rotate_degree(a, static_cast<int>(d)) : rotate_degree(a, static_cast<double>(d)); }
    else if (form == 2) { int r = static_cast<int>(s.sint(20)); s.desc << r << " radians of " << str(z); rad = r; o = rotate(a, r); }
    else { double r = s.real(-20, 20); s.desc << r << " radians of " << str(z); rad = r; o = rotate(a, r); }
    L m = std::fmod(rad, 2 * PI); if (m < 0) m += 2 * PI;
    s.nontrivial(prod(z) > 1 && m >= PI / 2);
    long turns = static_cast<long>(std::floor(m / (PI / 2) + 1e-12L)); L rest = m - turns * PI / 2; auto w = a;
    for (long i = 0; i < turns % 4; ++i) w = quarter(w);
    if (rest < 1e-9L) { req_eq(o, w, "quarter turns"); return; }
    if (PI / 2 - rest < 1e-6L) return;
    const Sz wz = w.getSize(); L hw = wz[0] / 2.0L, hh = wz[1] / 2.0L, D = std::hypot(hw, hh), nw = 2 * D * std::fabs(std::sin(std::atan2(hw, hh) + rest)), nh = 2 * D * std::fabs(std::sin(std::atan2(hh, hw) + rest));
    L k = wz[0] > wz[1] ? wz[1] / nh : wz[0] / nw;
    splat(o, w, [&](std::size_t x, std::size_t y) { L dx = x - hw, dy = y - hh; return std::pair<L, L>(hw + k * (dx * std::cos(rest) - dy * std::sin(rest)), hh + k * (dx * std::sin(rest) + dy * std::cos(rest))); });
}
PROP(rotate_colour, "more than one pixel")
{
    Sz z = sz2(s, 6); auto a = rgbimg(s, z); double r = angle(s); s.desc << show(a, 6) << " by " << r; s.nontrivial(prod(z) > 1 && r != 0);
    auto o = rotate(a, r);
    for (std::size_t k = 0; k < 3; ++k) { std::vector<std::uint8_t> v; for (auto& p : data(a)) v.push_back(p.channels[k]); auto w = rotate(Image<std::uint8_t>(v, z), r); REQ(w.getSize() == o.getSize(), "size"); for (std::size_t i = 0; i < w.count(); ++i) REQ(data(o)[i].channels[k] == data(w)[i], "channel " << k << " element " << i); }
}
template<class T> static void butter(Src& s, T D0, T N)
{
    Sz z = std::is_integral_v<T> ? Sz{s.sz(1, 11), s.sz(1, 11)} : sz2(s, 14); std::vector<T> v(prod(z)); for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<T>(i + 1); Image<T> a(v, z);
    s.desc << str(z) << " D0 " << +D0 << " N " << +N; s.nontrivial(prod(z) > 1);
    auto r = butterworth_fisheye(a, D0, N);
    splat(r, a, [&](std::size_t x, std::size_t y) { L hw = z[0] / 2.0L, hh = z[1] / 2.0L, dx = x - hw, dy = y - hh, w = 1 / std::sqrt(1 + std::pow(std::hypot(dx, dy) / D0, 2.0L * N)); return std::pair<L, L>(hw + dx * w, hh + dy * w); });
}
PROP(butterworth_double, "more than one pixel") { double d = 0.5 + s.unit() * 20, n = 0.25 + s.unit() * 3; butter<double>(s, d, n); }
PROP(butterworth_byte, "more than one pixel") { auto d = static_cast<std::uint8_t>(s.in(1, 20)), n = static_cast<std::uint8_t>(s.in(1, 4)); butter<std::uint8_t>(s, d, n); }

static L root(L r, L D)
{
    if (r <= 0) return 0; if (r >= D * std::exp(-0.5L)) return D;
    L lo = 0, hi = D; for (int i = 0; i < 80; ++i) { L m = (lo + hi) / 2; (m * std::exp(-m * m / (2 * D * D)) < r ? lo : hi) = m; } return (lo + hi) / 2;
}
template<class T, class R> static void check_fish(const Image<T>& r, const Image<T>& a, R rin, L tol)
{
    const Sz z = a.getSize(); REQ(r.getSize() == z, "size " << str(r.getSize()));
    for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x) {
        L dx = x - z[0] / 2.0L, dy = y - z[1] / 2.0L, ro = std::hypot(dx, dy), k = ro == 0 ? 1 : rin(ro) / ro; bool ok = false;
        for (L ex : {-tol, tol}) for (L ey : {-tol, tol}) { L fx = std::round(dx * k + z[0] / 2.0L + ex), fy = std::round(dy * k + z[1] / 2.0L + ey); T w{}; if (fx >= 0 && fy >= 0 && fx < z[0] && fy < z[1]) w = px(a, static_cast<std::size_t>(fx), static_cast<std::size_t>(fy)); ok = ok || same(w, px(r, x, y)); }
        REQ(ok, "pixel " << x << "," << y << " is " << ps(px(r, x, y)) << ", its source lies at " << dx * k + z[0] / 2.0L << "," << dy * k + z[1] / 2.0L);
    }
}
PROP(fisheye, "more than one pixel")
{
    Sz z = sz2(s, 14); auto a = ids(z); double D = 0.25 + s.unit() * s.pick({2.0, 10.0, 60.0}); s.desc << str(z) << " D0 " << D; s.nontrivial(prod(z) > 1);
    auto f = [&](L r) { return root(r, D); }; L tol = 1e-5L * (1 + D) / 10;
    auto r = gaussian_fisheye(a, D); check_fish(r, a, f, tol);
    auto q = gaussian_fisheye(std::execution::seq, a, D), p = gaussian_fisheye(std::execution::par, a, D); req_eq(q, r, "sequential policy form"); req_eq(p, r, "parallel policy form");
}
PROP(fisheye_integer, "more than one pixel")
{
    Sz z = sz2(s, 10); auto a = gen(s, z, gbyte); int D = static_cast<int>(s.in(1, 30)); s.desc << show(a, 6) << " D0 " << D; s.nontrivial(prod(z) > 1);
    check_fish(gaussian_fisheye(a, D), a, [&](L r) { return root(r, D); }, 1e-6L * (1 + D));
}
PROP(fisheye_custom, "more than one pixel")
{
    Sz z = sz2(s, 10); auto a = ids(z); double m = s.real(0.1, 3); s.desc << str(z) << " radius times " << m; s.nontrivial(prod(z) > 1);
    auto f = [m](const double r, const double d) { return r * m + d * 0; };
    auto r = gaussian_fisheye(a, 3.0, f); check_fish(r, a, [&](L q) { return q * m; }, 1e-9L); req_eq(gaussian_fisheye(std::execution::par, a, 3.0, f), r, "policy form");
}
PROP(fisheye_colour, "more than one pixel")
{
    Sz z = sz2(s, 7); auto a = rgbimg(s, z); double D = 0.25 + s.unit() * 10; s.desc << show(a, 6) << " D0 " << D; s.nontrivial(prod(z) > 1);
    check_fish(gaussian_fisheye(a, D), a, [&](L r) { return root(r, D); }, 1e-5L);
}
PROP(refusals, "three dimensions")
{
    Sz z = s.flip() ? Sz{s.sz(1, 3), s.sz(1, 3), s.sz(1, 3)} : Sz{s.sz(1, 5)}; auto a = dimg(s, z); s.desc << str(z); s.nontrivial(z.size() == 3);
    REQ(throws<std::runtime_error>([&] { rotate(a, 1.0); }), "rotate"); REQ(throws<std::runtime_error>([&] { rotate_degree(a, 30); }), "rotate_degree");
    REQ(throws<std::runtime_error>([&] { rotate_detail_shear_transformation(a, 1.0); }), "shear rotation"); REQ(throws<std::runtime_error>([&] { rotate_detail_shear_transformation_degree(a, 30.0); }), "shear rotation in degrees");
    REQ(throws<std::runtime_error>([&] { gaussian_fisheye(a, 2.0); }), "fisheye"); REQ(throws<std::runtime_error>([&] { gaussian_fisheye(std::execution::par, a, 2.0); }), "fisheye policy"); REQ(throws<std::runtime_error>([&] { butterworth_fisheye(a, 2.0, 2.0); }), "butterworth");
}
