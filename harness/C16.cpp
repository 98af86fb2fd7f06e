// C16: Gaussian functions, kernels, smoothing, difference of Gaussians and parameter estimation
#include "img.h"
using namespace g;
using namespace TinyDIP;
typedef long double L;

template<class T> static T padded(const Image<T>& a, int kind, long x, long y, const T& cv)     // 0 constant, 1 mirror, 2 replicate
{
    long w = static_cast<long>(a.getWidth()), h = static_cast<long>(a.getHeight());
    if (x >= 0 && y >= 0 && x < w && y < h) return px(a, static_cast<std::size_t>(x), static_cast<std::size_t>(y));
    if (kind == 0) return cv;
    auto m = [&](long v, long n) { if (kind == 1) { if (v < 0) v = -v; else if (v >= n) v = 2 * (n - 1) - v; return v; } return std::clamp(v, 0L, n - 1); };
    return px(a, static_cast<std::size_t>(m(x, w)), static_cast<std::size_t>(m(y, h)));
}
static L nd(L x, L sd) { return std::exp(-x * x / (2 * sd * sd)); }
static double gsig(Src& s) { return s.chance(1, 3) ? static_cast<double>(s.pick({0.5, 1.0, 1.6, 2.0})) : s.real(0.3, 6); }

PROP(density, "x is not zero")
{
    double x = s.flip() ? s.real(-20, 20) : s.dyadic(8, 4), y = s.real(-10, 10), sd = gsig(s); int ix = static_cast<int>(s.sint(20)); s.desc << "x=" << x << " y=" << y << " sd=" << sd; s.nontrivial(x != 0);
    REQ(close(normalDistribution1D(x, sd), static_cast<double>(nd(x, sd)), 1e-12, 1e-300), "normalDistribution1D(" << x << "," << sd << ") is " << normalDistribution1D(x, sd)); REQ(close(normalDistribution1D(ix, sd), static_cast<double>(nd(ix, sd)), 1e-12, 1e-300), "integer x");
    REQ(close(normalDistribution1D(static_cast<float>(x), static_cast<float>(sd)), static_cast<double>(nd(static_cast<float>(x), static_cast<float>(sd))), 1e-4, 1e-30), "float form"); REQ(normalDistribution1D(x, sd) == normalDistribution1D(-x, sd), "not even");
    double w2 = static_cast<double>(std::exp(-(L(x) * x + L(y) * y) / (2 * L(sd) * sd)) / (2 * std::numbers::pi_v<L> * sd * sd)); REQ(close(normalDistribution2D(x, y, sd), w2, 1e-12, 1e-300), "normalDistribution2D is " << normalDistribution2D(x, y, sd) << " expected " << w2);
    std::complex<double> cx(s.real(-3, 3), s.real(-1, 1)), cs(sd, 0); auto got = normalDistribution1D(cx, cs); auto want = std::exp(std::complex<L>(-cx * cx) / std::complex<L>(2 * L(sd) * sd, 0)); REQ(close(got.real(), static_cast<double>(want.real()), 1e-10, 1e-12) && close(got.imag(), static_cast<double>(want.imag()), 1e-10, 1e-12), "complex form");
}
PROP(kernels, "more than one sample")
{
    std::size_t w = s.tail(1, 9, 70), h = s.tail(1, 9, 70), d = s.sz(1, 5), cx = s.tail(0, w + 1, w + 40), cy = s.tail(0, h + 1, h + 40), cz = s.tail(0, d, d + 9); double a = gsig(s), b = gsig(s), c = gsig(s); s.desc << w << "x" << h << "x" << d << " centre " << cx << "," << cy << "," << cz << " sd " << a << "," << b << "," << c; s.nontrivial(w * h > 1);
    auto dd = [](std::size_t i, std::size_t k) { return L(i) - L(k); };
    for (bool n : {false, true}) {
        L tot = 0; for (std::size_t x = 0; x < w; ++x) tot += nd(dd(x, cx), a); L t2 = 0; for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) t2 += nd(dd(x, cx), a) * nd(dd(y, cy), b); if (n && (tot < 1e-200L || t2 < 1e-200L)) break; const double fl = n ? 1e-30 : 1e-300; auto g1 = gaussianFigure1D(w, cx, a, n); REQ(g1.getSize() == (Sz{w, 1}), "1-D size " << str(g1.getSize())); for (std::size_t x = 0; x < w; ++x) REQ(close(data(g1)[x], static_cast<double>(nd(dd(x, cx), a) / (n ? tot : 1)), 1e-10, fl), "1-D kernel at " << x << " is " << data(g1)[x]);
        auto g2 = gaussianFigure2D(w, h, cx, cy, a, b, n); REQ(g2.getSize() == (Sz{w, h}), "2-D size"); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) { L q = nd(dd(x, cx), a) * nd(dd(y, cy), b); REQ(close(px(g2, x, y), static_cast<double>(q / (n ? t2 : 1)), 1e-10, fl), "2-D kernel at " << x << "," << y << " is " << px(g2, x, y)); }
        if (!n) { auto gd0 = gaussianFigure2D(w, h, cx, cy, a, b); req_eq(gd0, g2, "normalize defaults to off"); req_eq(gaussianFigure1D(w, cx, a), g1, "normalize defaults to off"); }
    }
    req_eq(gaussianFigure2D(w, h, cx, cy, a), gaussianFigure2D(w, h, cx, cy, a, a), "single deviation");
    auto g3 = gaussianFigure3D(w, h, d, cx, cy, cz, a, b, c); REQ(g3.getSize() == (Sz{w, h, d}), "3-D size"); for (std::size_t i = 0; i < g3.count(); ++i) { Sz q = coord(i, {w, h, d}); L v = nd(dd(q[0], cx), a) * nd(dd(q[1], cy), b) * nd(dd(q[2], cz), c); REQ(close(data(g3)[i], static_cast<double>(v), 1e-10, 1e-300), "3-D kernel at " << str(q) << " is " << data(g3)[i]); }
}
PROP(ellipse, "correlated axes")
{
    std::size_t w = s.tail(1, 9, 70), h = s.tail(1, 9, 70), cx = s.tail(0, w + 1, w + 40), cy = s.tail(0, h + 1, h + 40); double v1 = gsig(s), v2 = gsig(s), rho = s.chance(1, 4) ? 0 : s.real(-0.95, 0.95), f = s.flip() ? 1.0 : s.real(-5, 50); s.desc << w << "x" << h << " centre " << cx << "," << cy << " variances " << v1 << "," << v2 << " rho " << rho; s.nontrivial(rho != 0);
    auto ref = [&](L x, L y, L s1, L s2) { L u = x / s1, v = y / s2, k = 1 - L(rho) * rho; return L(f) / (2 * std::numbers::pi_v<L> * s1 * s2 * std::sqrt(k)) * std::exp(-(u * u - 2 * rho * u * v + v * v) / (2 * k)); };
    auto o = gaussianFigure2D(w, h, cx, cy, v1, v2, rho, f), p = gaussianFigure2D(std::execution::par, w, h, cx, cy, v1, v2, rho, f); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) { double q = static_cast<double>(ref(L(x) - L(cx), L(y) - L(cy), std::sqrt(L(v1)), std::sqrt(L(v2)))); REQ(close(px(o, x, y), q, 1e-9, 1e-300), "at " << x << "," << y << " is " << px(o, x, y) << " expected " << q); } req_close(p, o, 1e-12, 0, "policy form"); if (f == 1.0) req_eq(gaussianFigure2D(w, h, cx, cy, v1, v2, rho), o, "factor defaults to one");
    GaussianParameters2D<double> gp{7.0, s.real(-1, 9), s.real(-1, 9), v1, v2, rho}; auto e = gaussianFigure2D(w, h, gp, f), ep = gaussianFigure2D(std::execution::par, w, h, gp, f); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) { double q = static_cast<double>(ref(L(x) - L(gp.x0), L(y) - L(gp.y0), v1, v2)); REQ(close(px(e, x, y), q, 1e-8, 1e-300), "from parameters, at " << x << "," << y << " is " << px(e, x, y) << " expected " << q); } req_close(ep, e, 1e-12, 0, "policy form of the parameters");
}
// separable smoothing with the normalised kernel centred on the pixel (odd sizes)
template<class T> static Image<double> smooth(const Image<T>& a, double s1, double s2, long f1, long f2, int kind, T cv)
{
    L n1 = 0, n2 = 0; for (long i = -(f1 / 2); i <= f1 / 2; ++i) n1 += nd(i, s1); for (long i = -(f2 / 2); i <= f2 / 2; ++i) n2 += nd(i, s2); std::vector<double> v; long w = static_cast<long>(a.getWidth()), h = static_cast<long>(a.getHeight());
    for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) { L q = 0; for (long j = -(f2 / 2); j <= f2 / 2; ++j) for (long i = -(f1 / 2); i <= f1 / 2; ++i) q += nd(i, s1) * nd(j, s2) * static_cast<L>(padded(a, kind, x + i, y + j, cv)); v.push_back(static_cast<double>(q / n1 / n2)); }
    return Image<double>(v, a.getSize());
}
static BoundaryCondition bcs[] = {BoundaryCondition::constant, BoundaryCondition::mirror, BoundaryCondition::replicate};
PROPW(smoothing, 3, "the kernel is wider than one and the image not constant")
{
    Sz z = wide2(s, 12, 12); auto a = dimg(s, z); int f1 = 1 + 2 * static_cast<int>(s.tail(0, 3, 9)), f2 = s.flip() ? f1 : 1 + 2 * static_cast<int>(s.tail(0, 3, 9)), kind = static_cast<int>(s.draw(2)); double s1 = gsig(s), s2 = s.flip() ? s1 : gsig(s), cv = gd(s); s.desc << show(a, 6) << " sd " << s1 << "," << s2 << " window " << f1 << "," << f2 << " border " << kind; s.nontrivial(f1 > 1 && a.count() > 1);
    auto bc = bcs[kind]; auto un = static_cast<std::size_t>(f1), vn = static_cast<std::size_t>(f2);
    if (kind == 1 && (un >= z[0] || vn >= z[1])) { REQ(throws<std::runtime_error>([&] { imgaussfilt(std::execution::seq, a, s1, s2, f1, f2, bc, cv); }), "a mirror border wider than the image is accepted"); return; }
    auto w = smooth(a, s1, s2, f1, f2, kind, cv); req_close(imgaussfilt(std::execution::seq, a, s1, s2, f1, f2, bc, cv), w, 1e-10, 1e-10, "imgaussfilt"); req_close(imgaussfilt(std::execution::par, a, s1, s2, f1, f2, bc, cv), w, 1e-10, 1e-10, "imgaussfilt par");
    if (un < z[0] && un < z[1]) { auto u = smooth(a, s1, s1, f1, f1, 1, 0.0); req_close(imgaussfilt(a, s1, f1), u, 1e-10, 1e-10, "imgaussfilt with mirror by default"); }
    if (un < z[0] && vn < z[1]) { req_close(imgaussfilt(std::execution::seq, a, s1, s2, 0.0, un, vn, bc, cv), w, 1e-8, 1e-8, "imgaussfilt along an axis turned by zero"); }
    REQ(throws<std::runtime_error>([&] { imgaussfilt(std::execution::seq, a, -s1, s2, 0.5, un, vn); }) && throws<std::runtime_error>([&] { imgaussfilt(std::execution::seq, a, s1, 0.0, 0.5, un, vn); }), "a deviation that is not positive is accepted");
}
PROPW(smoothing_default_size, 3, "the default window fits into the image")
{
    Sz z{s.sz(2, 14), s.sz(2, 14)}; auto a = s.flip() ? dimg(s, z) : gen(s, z, [](Src& t) { return static_cast<double>(gb(t)); }); auto b = bimg(s, z); double s1 = s.flip() ? static_cast<double>(s.pick({0.5, 1.0, 1.5, 2.0})) : s.real(0.3, 2.4); long f = 2 * static_cast<long>(std::ceil(2 * s1)) + 1; int kind = static_cast<int>(s.draw(2)); double cv = gd(s); s.desc << show(a, 6) << " sd " << s1 << " border " << kind; bool fit = f < static_cast<long>(std::min(z[0], z[1])); s.nontrivial(fit);
    REQ(static_cast<long>(computeFilterSizeFromSigma(s1)) == f, "default window " << computeFilterSizeFromSigma(s1) << " expected " << f);
    if (kind == 1 && !fit) { REQ(throws<std::runtime_error>([&] { imgaussfilt(a, s1); }), "a mirror border wider than the image is accepted"); return; }
    req_close(imgaussfilt(a, s1, 0, bcs[kind], cv), smooth(a, s1, s1, f, f, kind, cv), 1e-10, 1e-10, "imgaussfilt"); req_close(imgaussfilt(b, s1, 0, bcs[kind], static_cast<std::uint8_t>(9)), smooth(b, s1, s1, f, f, kind, static_cast<std::uint8_t>(9)), 1e-10, 1e-9, "imgaussfilt of bytes");
    double s2 = s.real(0.3, 2.4); long f2 = 2 * static_cast<long>(std::ceil(2 * s2)) + 1; if (fit && f2 < static_cast<long>(std::min(z[0], z[1]))) { auto p = smooth(a, s1, s1, f, f, 1, 0.0), q = smooth(a, s2, s2, f2, f2, 1, 0.0); std::vector<double> v; for (std::size_t i = 0; i < p.count(); ++i) v.push_back(data(p)[i] - data(q)[i]); req_close(difference_of_gaussian(a, s1, s2), Image<double>(v, z), 1e-9, 1e-9, "difference_of_gaussian"); auto dz = difference_of_gaussian(a, s1, s1); for (auto e : data(dz)) REQ(std::fabs(e) < 1e-9, "difference of equal smoothings is " << e); }
}
// any window size, even ones too: a weighted mean stays within the range of the input and keeps constants
PROP(smoothing_mean, "an even window")
{
    Sz z{s.sz(2, 10), s.sz(2, 10)}; bool konst = s.chance(1, 3); double k = gd(s); auto a = dimg(s, z); if (konst) a = Image<double>(std::vector<double>(prod(z), k), z); int f1 = 1 + static_cast<int>(s.tail(0, 6, 20)), f2 = 1 + static_cast<int>(s.tail(0, 6, 20)), kind = 1 + static_cast<int>(s.draw(1)); double s1 = gsig(s), s2 = gsig(s); s.desc << show(a, 6) << " sd " << s1 << "," << s2 << " window " << f1 << "," << f2 << " border " << kind; s.nontrivial(f1 % 2 == 0 || f2 % 2 == 0);
    if (kind == 1 && (static_cast<std::size_t>(f1) >= z[0] || static_cast<std::size_t>(f2) >= z[1])) { REQ(throws<std::runtime_error>([&] { imgaussfilt(std::execution::seq, a, s1, s2, f1, f2, bcs[kind]); }), "a mirror border wider than the image is accepted"); return; }
    auto o = imgaussfilt(std::execution::seq, a, s1, s2, f1, f2, bcs[kind]); REQ(o.getSize() == z, "size " << str(o.getSize())); double lo = data(a)[0], hi = lo; for (auto v : data(a)) { lo = std::min(lo, v); hi = std::max(hi, v); } for (auto v : data(o)) REQ(v >= lo - 1e-9 && v <= hi + 1e-9, "smoothed value " << v << " outside [" << lo << "," << hi << "]");
    Sz y = dims(s, 3, 3, 1, 3); auto b = dimg(s, y); REQ(throws<std::runtime_error>([&] { imgaussfilt(b, 1.0); }) && throws<std::runtime_error>([&] { imgaussfilt(std::execution::seq, b, 1.0, 1.0, 3, 3); }), "three dimensions accepted");
}
PROP(smoothing_colour, "a kernel wider than one")
{
    Sz z{s.sz(4, 9), s.sz(4, 9)}; auto a = gen(s, z, [](Src& t) { RGB_DOUBLE p; for (auto& c : p.channels) c = gd(t); return p; }); auto m = gen(s, z, [](Src& t) { MultiChannel<double, 2> p; for (auto& c : p.channels) c = gd(t); return p; }); std::size_t f1 = 1 + 2 * s.draw(1), f2 = 1 + 2 * s.draw(1); double s1 = gsig(s), s2 = gsig(s), r = s.chance(1, 3) ? 0.0 : s.real(-1, 1); s.desc << str(z) << " sd " << s1 << "," << s2 << " window " << f1 << "," << f2 << " angle " << r; s.nontrivial(f1 + f2 > 2);
    auto plane = [&](const auto& im, std::size_t c) { std::vector<double> v; for (auto& p : data(im)) v.push_back(p.channels[c]); return Image<double>(v, im.getSize()); };
    auto o = imgaussfilt(std::execution::seq, a, s1, s2, r, f1, f2); auto om = imgaussfilt(std::execution::seq, m, s1, s2, r, f1, f2); REQ(o.getSize() == z && om.getSize() == z, "size " << str(o.getSize()));
    {   // smoothing along a turned axis: turn, smooth, turn back and keep the middle
        auto turned = rotate_detail_shear_transformation(plane(a, 0), r); auto sm = imgaussfilt(std::execution::seq, turned, s1, s2, static_cast<int>(f1), static_cast<int>(f2)); auto back = rotate_detail_shear_transformation(sm, -r); std::vector<double> v; long bw = static_cast<long>(back.getWidth()), bh = static_cast<long>(back.getHeight()), ox = bw / 2 - static_cast<long>(z[0] / 2), oy = bh / 2 - static_cast<long>(z[1] / 2);
        for (long y = 0; y < static_cast<long>(z[1]); ++y) for (long x = 0; x < static_cast<long>(z[0]); ++x) v.push_back(x + ox < bw && y + oy < bh ? px(back, static_cast<std::size_t>(x + ox), static_cast<std::size_t>(y + oy)) : 0); req_close(plane(o, 0), Image<double>(v, z), 1e-9, 1e-9, "smoothing along a turned axis");
    }
    for (std::size_t c = 0; c < 3; ++c) req_close(plane(o, c), imgaussfilt(std::execution::seq, plane(a, c), s1, s2, r, f1, f2), 1e-12, 1e-12, "colour channel " + std::to_string(c)); for (std::size_t c = 0; c < 2; ++c) req_close(plane(om, c), imgaussfilt(std::execution::seq, plane(m, c), s1, s2, r, f1, f2), 1e-12, 1e-12, "channel " + std::to_string(c));
}
PROPW(estimation, 2, "a tilted Gaussian")
{
    std::size_t w = s.sz(9, 24), h = s.sz(9, 24); double A = s.real(1, 200), x0 = s.real(0.3, 0.7) * static_cast<double>(w - 1), y0 = s.real(0.3, 0.7) * static_cast<double>(h - 1), sx = s.real(1, static_cast<double>(w) / 6), sy = s.real(1, static_cast<double>(h) / 6), rho = s.chance(1, 3) ? 0 : s.real(-0.6, 0.6); s.desc << w << "x" << h << " A " << A << " at " << x0 << "," << y0 << " sd " << sx << "," << sy << " rho " << rho; s.nontrivial(rho != 0);
    std::vector<double> v; for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) { double u = (static_cast<double>(x) - x0) / sx, t = (static_cast<double>(y) - y0) / sy; v.push_back(A * std::exp(-(u * u - 2 * rho * u * t + t * t) / (2 * (1 - rho * rho)))); }
    Image<double> a(v, Sz{w, h}); auto chk = [&](const GaussianParameters2D<double>& e, const char* what) { REQ(close(e.amplitude, A, 1e-3, 1e-3) && close(e.x0, x0, 0, 1e-3) && close(e.y0, y0, 0, 1e-3) && close(e.sigma_x, sx, 1e-3, 1e-3) && close(e.sigma_y, sy, 1e-3, 1e-3) && close(e.rho, rho, 0, 1e-3), what << " finds amplitude " << e.amplitude << " at " << e.x0 << "," << e.y0 << " sd " << e.sigma_x << "," << e.sigma_y << " rho " << e.rho); };
    chk(estimate_gaussian_parameters_2d(std::execution::seq, a), "sequential fit"); if (s.chance(1, 4)) chk(estimate_gaussian_parameters_2d(std::execution::par, a), "parallel fit");
    REQ(throws<std::invalid_argument>([&] { estimate_gaussian_parameters_2d(std::execution::seq, Image<double>(v, Sz{w, h, 1})); }), "three dimensions accepted");
}
