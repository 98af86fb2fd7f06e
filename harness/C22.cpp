// C22: keypoints, descriptors and their matching
#include "img.h"
#include <iostream>
#include <omp.h>
#include <set>
using namespace g;
using namespace TinyDIP;
typedef Image<double> I;
namespace SI = TinyDIP::SIFT_impl;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
static double P(const I& m, long x, long y) { return x < 0 || y < 0 || x >= static_cast<long>(m.getWidth()) || y >= static_cast<long>(m.getHeight()) ? 0.0 : px(m, static_cast<std::size_t>(x), static_cast<std::size_t>(y)); }
static bool extremum(const I* const (&v)[3], long x, long y, double th)
{
    double c = P(*v[1], x, y); if (!(std::fabs(c) > th)) return false; bool hi = true, lo = true;
    for (int k = 0; k < 3; ++k) for (long j = -1; j <= 1; ++j) for (long i = -1; i <= 1; ++i) { if (k == 1 && !i && !j) continue; double q = P(*v[k], x + i, y + j); hi = hi && c > q; lo = lo && c < q; }
    return hi || lo;
}
struct Hess { double dx, dy, xx, yy, xy, det; };
static Hess hess(const I& m, long x, long y) { Hess h; double c = P(m, x, y); h.dx = (P(m, x + 1, y) - P(m, x - 1, y)) / 2; h.dy = (P(m, x, y + 1) - P(m, x, y - 1)) / 2; h.xx = P(m, x + 1, y) + P(m, x - 1, y) - 2 * c; h.yy = P(m, x, y + 1) + P(m, x, y - 1) - 2 * c; h.xy = (P(m, x + 1, y + 1) - P(m, x + 1, y - 1) - P(m, x - 1, y + 1) + P(m, x - 1, y - 1)) / 4; h.det = h.xx * h.yy - h.xy * h.xy; return h; }
struct Loc { double x, y; bool sure; };
static Loc refine(const I& m, long x, long y)
{
    Hess h = hess(m, x, y); Loc r{static_cast<double>(x), static_cast<double>(y), true}; if (h.det == 0) return r;
    double ox = -(h.yy * h.dx - h.xy * h.dy) / h.det, oy = -(h.xx * h.dy - h.xy * h.dx) / h.det; double m1 = std::max(std::fabs(ox), std::fabs(oy)); double scale = std::fabs(h.xx * h.yy) + h.xy * h.xy;
    if (std::fabs(m1 - 1) < 1e-6 || std::fabs(h.det) < 1e-9 * scale) r.sure = false; if (m1 < 1) { r.x += ox; r.y += oy; } return r;
}
// a strictly ordered neighbourhood is rare in random data: build bumps
static I bumpy(Src& s, std::size_t w, std::size_t h, bool dense)
{
    I m(w, h); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) m.at(x, y) = static_cast<double>(s.sint(6)); std::size_t n = dense ? s.sz(1, 1 + w * h / 6) : s.draw(1);
    for (std::size_t i = 0; i < n; ++i) { std::size_t x = s.draw(w - 1), y = s.draw(h - 1); m.at(x, y) = s.flip() ? static_cast<double>(8 + s.draw(60)) : -static_cast<double>(8 + s.draw(60)); }
    return m;
}

PROP(extremum_rule, "the centre is an extremum")
{
    I a[3] = {I(3, 3), I(3, 3), I(3, 3)}; bool up = s.flip(); double lim = static_cast<double>(s.draw(20)); for (auto& m : a) for (std::size_t y = 0; y < 3; ++y) for (std::size_t x = 0; x < 3; ++x) m.at(x, y) = up ? -static_cast<double>(s.draw(9)) : static_cast<double>(s.draw(9)); a[1].at(std::size_t{1}, std::size_t{1}) = (up ? 1 : -1) * (lim + static_cast<double>(s.draw(3)) - 1);
    if (s.flip()) { std::size_t k = s.draw(2), x = s.draw(2), y = s.draw(2); a[k].at(x, y) = a[1].at(std::size_t{1}, std::size_t{1}) + static_cast<double>(s.draw(2)) - 1; } double th = s.flip() ? lim : s.dyadic(8, 4); for (auto& m : a) s.desc << show(m) << " "; s.desc << "threshold " << th; const I* const v[3] = {&a[0], &a[1], &a[2]}; bool want = extremum(v, 1, 1, th);
    // outside pixels never enter here: the whole neighbourhood is inside
    s.nontrivial(want); REQ(SI::is_it_extremum(a[0], a[1], a[2], th) == want, "judged " << !want);
    std::size_t bad = s.draw(2); I odd(s.flip() ? 3 : 4, 4); I b[3] = {a[0], a[1], a[2]}; b[bad] = odd; REQ(throws_any([&] { (void)SI::is_it_extremum(b[0], b[1], b[2], th); }), "a neighbourhood of another size accepted");
}
PROP(refinement_quadratic, "the optimum is off the grid")
{   // on a quadratic surface the refined location is its exact stationary point
    double u = s.dyadic(7, 8) / 8, v = s.dyadic(7, 8) / 8; double a, b, c; do { a = s.dyadic(6, 2); b = s.dyadic(6, 2); c = s.dyadic(3, 2); if (std::fabs(4 * a * b - c * c) < 0.5) { a = 2; b = 3; c = 0.5; } } while (false); double k = static_cast<double>(s.sint(30)); I m(3, 3);
    u = std::max(-0.9, std::min(0.9, u)); v = std::max(-0.9, std::min(0.9, v)); for (long y = -1; y <= 1; ++y) for (long x = -1; x <= 1; ++x) { double X = static_cast<double>(x) - u, Y = static_cast<double>(y) - v; m.at(static_cast<std::size_t>(x + 1), static_cast<std::size_t>(y + 1)) = a * X * X + b * Y * Y + c * X * Y + k; }
    std::size_t px0 = s.draw(500), py0 = s.draw(500); s.desc << a << "X^2+" << b << "Y^2+" << c << "XY around " << u << "," << v << " at " << px0 << "," << py0; s.nontrivial(u != 0 || v != 0); auto r = SI::keypoint_refinement(m, std::make_tuple(px0, py0));
    REQ(close(std::get<0>(r), static_cast<double>(px0) + u, 1e-9, 1e-9) && close(std::get<1>(r), static_cast<double>(py0) + v, 1e-9, 1e-9), "refined to " << std::get<0>(r) << "," << std::get<1>(r));
}
PROP(filter_rule, "a blob that passes the contrast threshold")
{
    I m = dimg(s, {3, 3}); if (s.flip()) m.at(std::size_t{1}, std::size_t{1}) = static_cast<double>(9 + s.draw(100)); double ct = s.flip() ? 8 : static_cast<double>(s.draw(20)), et = s.flip() ? 12.1 : static_cast<double>(1 + s.draw(20)); Hess h = hess(m, 1, 1); double tr = h.xx + h.yy; double ratio = tr * tr / h.det; s.desc << show(m) << " thresholds " << ct << "," << et; bool want = P(m, 1, 1) > ct && !(ratio >= et); s.nontrivial(want); if (h.det == 0 || std::fabs(ratio - et) < 1e-9 * et) return; REQ(SI::keypoint_filtering(m, ct, et) == want, "judged " << !want);
}
PROPW(local_extrema, 3, "an extremum exists")
{
    bool some = s.chance(3, 4); std::size_t w = some ? 5 + s.draw(7) : s.sz(1, 12), h = some ? 5 + s.draw(7) : s.sz(1, 12); bool dense = !s.chance(2, 3); I a = bumpy(s, w, h, dense), b = bumpy(s, w, h, true), c = bumpy(s, w, h, dense); double th = s.pick({0.0, 4.0, 8.0, 20.0}), et = s.pick({12.1, 5.0, 100.0}); bool filt = s.flip(); std::size_t oi = s.draw(5), si = s.draw(5); int nt = static_cast<int>(1 + s.draw(7));
    s.desc << show(b) << " between " << show(a) << " and " << show(c) << " threshold " << th << " filter " << filt << " threads " << nt; const I* const v[3] = {&a, &b, &c}; std::vector<Loc> want; bool sure = true;
    for (long y = 1; y + 1 < static_cast<long>(h); ++y) for (long x = 1; x + 1 < static_cast<long>(w); ++x) if (extremum(v, x, y, th)) { if (filt) { Hess q = hess(b, x, y); double t = q.xx + q.yy, r = t * t / q.det; if (q.det == 0 || std::fabs(r - et) < 1e-6) sure = false; if (!(P(b, x, y) > th) || r >= et) continue; } want.push_back(refine(b, x, y)); sure = sure && want.back().sure; }
    s.nontrivial(!want.empty()); omp_set_num_threads(nt); auto got = !filt ? SI::find_local_extrema(a, b, c, oi, si, th, et, false) : (th == 8 && et == 12.1) ? SI::find_local_extrema(a, b, c, oi, si) : SI::find_local_extrema(a, b, c, oi, si, th, et); omp_set_num_threads(2); if (!sure) return; REQ(got.size() == want.size(), got.size() << " extrema found, expected " << want.size());
    std::vector<bool> used(got.size()); for (auto& l : want) { bool hit = false; for (std::size_t i = 0; i < got.size() && !hit; ++i) if (!used[i] && close(std::get<2>(got[i]), l.x, 1e-6, 1e-6) && close(std::get<3>(got[i]), l.y, 1e-6, 1e-6)) hit = used[i] = true; REQ(hit, "no extremum reported at " << l.x << "," << l.y); }
    for (auto& k : got) { REQ(std::get<0>(k) == oi && std::get<1>(k) == si, "labelled octave " << std::get<0>(k) << " scale " << std::get<1>(k)); REQ(std::get<2>(k) > 0 && std::get<2>(k) < static_cast<double>(w) - 1 && std::get<3>(k) > 0 && std::get<3>(k) < static_cast<double>(h) - 1, "extremum outside the picture"); }
    I d(w + 1, h), e(w, h + 1); REQ(throws_any([&] { (void)SI::find_local_extrema(d, b, c, oi, si, th, et, filt); }) && throws_any([&] { (void)SI::find_local_extrema(a, b, e, oi, si, th, et, filt); }), "pictures of different sizes accepted");
}
PROP(mapping, "the sizes differ")
{
    std::size_t w = 1 + s.draw(300), h = 1 + s.draw(300), W = s.chance(1, 3) ? w : 1 + s.draw(900), H = s.chance(1, 3) ? h : 1 + s.draw(900); bool grid = s.flip(); double x = static_cast<double>(s.draw(w - 1)), y = static_cast<double>(s.draw(h - 1)); if (!grid) { x += s.unit() * 0.999; y += s.unit() * 0.999; } s.desc << x << "," << y << " of " << w << "x" << h << " in " << W << "x" << H; s.nontrivial(W != w || H != h); auto p = SI::mapping_point(std::make_tuple(x, y), w, h, W, H);
    auto ok = [&](std::size_t got, double l, std::size_t from, std::size_t to) { long double v = static_cast<long double>(l) * static_cast<long double>(to) / static_cast<long double>(from); long long f = static_cast<long long>(v); if (grid) return static_cast<std::size_t>(l) * to / from == got; return static_cast<long long>(got) == f || (std::fabs(static_cast<double>(v - std::round(v))) < 1e-7 && std::llabs(static_cast<long long>(got) - f) <= 1); };
    REQ(ok(p.p[0], x, w, W) && ok(p.p[1], y, h, H), "mapped to " << p.p[0] << "," << p.p[1]); REQ(p.p[0] < W && p.p[1] < H, "mapped outside");
}
// mirroring needs an image larger than the largest filter
static bool fit(std::size_t w, std::size_t h, std::size_t n, double sg, double k) { double f = 2 * std::ceil(2 * sg * std::pow(k, static_cast<double>(n) - 1)) + 1; return static_cast<double>(std::min(w, h)) > f; }
PROP(octave, "at least two levels")
{
    std::size_t w = s.sz(1, 20), h = s.sz(1, 20), n = s.draw(5); double sg = 0.4 + s.unit() * 0.6, k = 1.1 + s.unit() * 0.2; I m = dimg(s, {w, h}); s.desc << show(m) << " levels " << n << " sigma " << sg << " factor " << k; bool fits = n < 2 || fit(w, h, n, sg, k); s.nontrivial(n >= 2 && fits); if (!fits) { REQ(throws<std::runtime_error>([&] { (void)SI::generate_octave(m, n, sg, k); }), "an image smaller than the filter accepted"); return; } omp_set_num_threads(static_cast<int>(1 + s.draw(3))); auto o = SI::generate_octave(m, n, sg, k); omp_set_num_threads(2);
    REQ(o.size() == (n < 2 ? 0 : n - 1), o.size() << " differences of " << n << " levels"); for (std::size_t i = 0; i < o.size(); ++i) { I e = difference_of_gaussian(m, sg * std::pow(k, static_cast<double>(i)), sg * std::pow(k, static_cast<double>(i) + 1)); REQ(o[i].getSize() == e.getSize(), "size of difference " << i); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) REQ(close(px(o[i], x, y), px(e, x, y), 1e-9, 1e-9), "difference " << i << " at " << x << "," << y << " is " << px(o[i], x, y) << " expected " << px(e, x, y)); }
}
static I scene(Src& s, std::size_t w, std::size_t h) { I m(w, h); std::size_t n = 2 + s.draw(10); for (std::size_t i = 0; i < n; ++i) { double cx = s.unit() * static_cast<double>(w), cy = s.unit() * static_cast<double>(h), r = 0.6 + s.unit() * 2.5, a = (s.flip() ? 1 : -1) * (60 + s.unit() * 190); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) { double d = (static_cast<double>(x) - cx) * (static_cast<double>(x) - cx) + (static_cast<double>(y) - cy) * (static_cast<double>(y) - cy); m.at(x, y) += a * std::exp(-d / (2 * r * r)); } } return m; }
static std::multiset<std::pair<std::size_t, std::size_t>> ms(const std::vector<Point<2>>& v) { std::multiset<std::pair<std::size_t, std::size_t>> r; for (auto& p : v) r.emplace(p.p[0], p.p[1]); return r; }
PROPW(keypoints, 6, "keypoints found")
{
    bool some = s.chance(4, 5); std::size_t w = some ? 24 + s.draw(24) : s.sz(1, 46), h = some ? 24 + s.draw(24) : s.sz(1, 46), n = some ? 1 + s.draw(2) : s.draw(5), lv = some ? 4 + s.draw(1) : s.draw(3); double th = s.pick({0.5, 1.0, 3.0, 8.0}), sg = some ? s.pick({0.7, 0.9, 1.2}) : s.pick({1.2, 1.6}), kf = some ? 1.3 : std::numbers::sqrt2; I m = scene(s, w, h); s.desc << w << "x" << h << " octaves " << n << " levels " << lv << " threshold " << th << " sigma " << sg << " factor " << kf;
    auto half = [](const Image<double>& i, std::size_t W, std::size_t H) { Image<double> o(W, H); for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) o.at(x, y) = px(i, std::min(2 * x, i.getWidth() - 1), std::min(2 * y, i.getHeight() - 1)); return o; };
    std::multiset<std::pair<std::size_t, std::size_t>> want; bool sure = true; std::size_t octs = 0; I b = m; for (std::size_t o = 0; o < n && b.getWidth() >= 20 && b.getHeight() >= 20 && (lv < 2 || fit(b.getWidth(), b.getHeight(), lv, sg, kf)); ++o)
    {
        auto d = SI::generate_octave(b, lv, sg, kf); std::size_t before = want.size(); for (std::size_t k = 0; k + 2 < d.size(); ++k) { const I* const v[3] = {&d[k], &d[k + 1], &d[k + 2]}; for (long y = 1; y + 1 < static_cast<long>(b.getHeight()); ++y) for (long x = 1; x + 1 < static_cast<long>(b.getWidth()); ++x) if (extremum(v, x, y, th)) { Loc l = refine(d[k + 1], x, y); double X = l.x * static_cast<double>(w) / static_cast<double>(b.getWidth()), Y = l.y * static_cast<double>(h) / static_cast<double>(b.getHeight()); auto near = [](double q) { return std::fabs(q - std::round(q)) < 1e-6; }; if (!l.sure || near(X) || near(Y)) sure = false; want.emplace(static_cast<std::size_t>(X), static_cast<std::size_t>(Y)); } }
        octs += want.size() > before; b = half(b, b.getWidth() / 2, b.getHeight() / 2);
    }
    s.desc << " with " << want.size() << " keypoints in " << octs << " octaves"; s.nontrivial(octs >= 1); Quiet q; omp_set_num_threads(static_cast<int>(1 + s.draw(3))); auto a = SI::get_potential_keypoint(std::execution::seq, m, n, lv, sg, kf, th, 12.1, half); auto p = SI::get_potential_keypoint(std::execution::par, m, n, lv, sg, kf, th, 12.1, half); omp_set_num_threads(2);
    for (auto& k : a) REQ(k.p[0] < w && k.p[1] < h, "keypoint " << k.p[0] << "," << k.p[1] << " outside the picture"); REQ(ms(a) == ms(p), "the parallel policy finds " << p.size() << " keypoints, the sequential one " << a.size() << ", or other ones"); REQ(a.size() == want.size(), a.size() << " keypoints, expected " << want.size()); if (sure) REQ(ms(a) == want, "keypoints at other places");
}
static void grad(const I& m, long x, long y, double& mag, double& ang) { double dx = P(m, x + 1, y) - P(m, x - 1, y), dy = P(m, x, y + 1) - P(m, x, y - 1); mag = std::hypot(dx, dy); ang = std::atan2(dy, dx) * 180 / std::numbers::pi + 180; }
static I texture(Src& s, std::size_t w, std::size_t h) { bool real = s.flip(); I m(w, h); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) m.at(x, y) = real ? s.unit() * 255 : static_cast<double>(s.draw(8)); return m; }
PROP(orientation, "a non-zero gradient")
{
    I m = texture(s, 3, 3); double a, b; grad(m, 1, 1, a, b); s.desc << show(m); s.nontrivial(a > 0); auto r = SI::compute_each_pixel_orientation(m); REQ(close(std::get<0>(r), a, 1e-12, 1e-12), "magnitude " << std::get<0>(r) << " expected " << a); double g = std::get<1>(r); REQ(g >= 0 && g <= 360, "orientation " << g); if (a > 0) REQ(close(g, b, 1e-9, 1e-9) || (std::fabs(std::fabs(g - b) - 360) < 1e-9), "orientation " << g << " expected " << b); I e(s.flip() ? 3 : 2, 4); REQ(throws_any([&] { (void)SI::compute_each_pixel_orientation(e); }), "another size accepted");
}
// every pixel adds its gradient magnitude to the bin of its direction; a direction on a bin border may go to either side
struct Hist { std::vector<double> lo, slack; explicit Hist(std::size_t n) : lo(n), slack(n) {} void add(double mag, double ang, double width) { std::size_t n = lo.size(); std::size_t k = std::min(n - 1, static_cast<std::size_t>(ang / width)); double f = ang / width; if (std::fabs(f - std::round(f)) < 1e-9) { std::size_t j = static_cast<std::size_t>(std::llround(f)); slack[std::min(n - 1, j)] += mag; slack[j ? std::min(n - 1, j - 1) : 0] += mag; if (ang < 1e-6 || ang > 360 - 1e-6) { slack[0] += mag; slack[n - 1] += mag; if (n > 36) slack[35] += mag; } } else lo[k] += mag; } };
PROPW(histogram, 2, "the window leaves the picture")
{
    std::size_t w = s.sz(1, 12), h = s.sz(1, 12), r = s.sz(0, 5); I m = texture(s, w, h); std::size_t x0 = s.draw(w - 1), y0 = s.draw(h - 1); s.desc << show(m) << " at " << x0 << "," << y0 << " radius " << r; bool out = x0 < r || y0 < r || x0 + r >= w || y0 + r >= h; s.nontrivial(out); auto g = SI::get_orientation_histogram(m, Point<2>{{x0, y0}}, r); REQ(g.size() == 37, g.size() << " bins"); Hist e(37); double tot = 0;
    for (long y = static_cast<long>(y0) - static_cast<long>(r); y <= static_cast<long>(y0 + r); ++y) for (long x = static_cast<long>(x0) - static_cast<long>(r); x <= static_cast<long>(x0 + r); ++x) { if (x < 0 || y < 0 || x >= static_cast<long>(w) || y >= static_cast<long>(h)) continue; double a, b; grad(m, x, y, a, b); e.add(a, b, 10); tot += a; }
    double sum = 0; for (std::size_t i = 0; i < 37; ++i) { sum += g[i]; REQ(g[i] > e.lo[i] - 1e-6 && g[i] < e.lo[i] + e.slack[i] + 1e-6, "bin " << i << " holds " << g[i] << " expected " << e.lo[i] << (e.slack[i] ? " or more" : "")); } REQ(close(sum, tot, 1e-9, 1e-6), "the bins hold " << sum << " in total, expected " << tot);
}
PROPW(descriptor, 2, "the window leaves the picture")
{
    bool big = s.flip(); std::size_t w = big ? s.sz(16, 24) : s.sz(1, 16), h = big ? s.sz(16, 24) : s.sz(1, 16); I m = texture(s, w, h); std::size_t x0 = s.draw(w - 1), y0 = s.draw(h - 1); s.desc << w << "x" << h << " " << show(m) << " at " << x0 << "," << y0; s.nontrivial(x0 < 8 || y0 < 8 || x0 + 8 > w || y0 + 8 > h); auto g = SI::get_keypoint_descriptor(m, Point<2>{{x0, y0}}); REQ(g.size() == 128, g.size() << " elements");
    for (long sy = 0; sy < 4; ++sy) for (long sx = 0; sx < 4; ++sx) { Hist e(8); double tot = 0, sum = 0; for (long j = 0; j < 4; ++j) for (long i = 0; i < 4; ++i) { long x = static_cast<long>(x0) - 8 + sx * 4 + i, y = static_cast<long>(y0) - 8 + sy * 4 + j; if (x < 0 || y < 0 || x >= static_cast<long>(w) || y >= static_cast<long>(h)) continue; double a, b; grad(m, x, y, a, b); e.add(a, b, 45); tot += a; } for (std::size_t k = 0; k < 8; ++k) { double v = g[static_cast<std::size_t>((sy * 4 + sx) * 8) + k]; sum += v; REQ(v > e.lo[k] - 1e-6 && v < e.lo[k] + e.slack[k] + 1e-6, "subregion " << sx << "," << sy << " bin " << k << " holds " << v << " expected " << e.lo[k]); } REQ(close(sum, tot, 1e-9, 1e-6), "subregion " << sx << "," << sy << " holds " << sum << " expected " << tot); }
}
typedef std::vector<SiftDescriptor> Ds;
typedef std::vector<std::pair<std::size_t, std::size_t>> Ms;
static Ms ratio(const Ds& a, const Ds& b, double r) { Ms o; for (std::size_t i = 0; i < a.size(); ++i) { std::vector<std::pair<double, std::size_t>> d; for (std::size_t j = 0; j < b.size(); ++j) { double q = 0; for (std::size_t k = 0; k < a[i].size(); ++k) q += (a[i][k] - b[j][k]) * (a[i][k] - b[j][k]); d.emplace_back(q, j); } std::sort(d.begin(), d.end()); if (d.empty()) continue; if (d.size() == 1 || d[0].first < r * r * d[1].first) o.emplace_back(i, d[0].second); } return o; }
static std::string str(const Ms& m) { std::ostringstream o; for (auto& [a, b] : m) o << a << "-" << b << " "; return o.str(); }
PROPW(matching, 3, "a match that the cross-check rejects")
{
    std::size_t n = 1 + s.draw(5); auto gen = [&](std::size_t k) { Ds d(k, SiftDescriptor(n)); for (auto& v : d) for (auto& e : v) e = static_cast<double>(s.draw(20)); return d; }; Ds a = gen(s.draw(12)), b = gen(s.draw(12)); if (!a.empty()) for (auto& v : b) if (s.flip()) { v = a[s.draw(a.size() - 1)]; v[0] += static_cast<double>(s.draw(2)); }
    double r = s.pick({0.5, 0.625, 0.75, 0.875, 1.0}); s.desc << a.size() << " against " << b.size() << " of length " << n << " ratio " << r << ":"; for (auto& v : a) { s.desc << " ("; for (auto e : v) s.desc << e << " "; s.desc << ")"; } s.desc << " |"; for (auto& v : b) { s.desc << " ("; for (auto e : v) s.desc << e << " "; s.desc << ")"; }
    Ms f = ratio(a, b, r), k = ratio(b, a, r), both; for (auto& m : f) if (std::find(k.begin(), k.end(), std::make_pair(m.second, m.first)) != k.end()) both.push_back(m); if (a.empty() || b.empty()) f.clear(); s.nontrivial(both.size() < f.size()); Quiet q;
    auto sorted = [](Ms m) { std::sort(m.begin(), m.end()); return m; }; auto chk = [&](Ms g, const Ms& e, const char* what) { g = sorted(g); REQ(g == e, what << " gives " << str(g) << "expected " << str(e)); };
    chk(find_raw_matches(a, b, r), f, "raw matching"); chk(find_raw_matches(std::execution::par, a, b, r), f, "parallel raw matching"); chk(find_keypoint_matches(std::execution::seq, a, b, r), f, "keypoint matching"); chk(find_keypoint_matches(std::execution::par, a, b, r), f, "parallel keypoint matching"); chk(find_robust_matches(a, b, r), both, "robust matching"); chk(find_robust_matches(std::execution::par, a, b, r), both, "parallel robust matching");
    auto man = [](const SiftDescriptor& x, const SiftDescriptor& y) { double t = 0; for (std::size_t i = 0; i < x.size(); ++i) t += std::fabs(x[i] - y[i]); return t; }; Ms e; for (std::size_t i = 0; i < a.size(); ++i) { std::vector<std::pair<double, std::size_t>> d; for (std::size_t j = 0; j < b.size(); ++j) d.emplace_back(man(a[i], b[j]), j); std::sort(d.begin(), d.end()); if (!d.empty() && (d.size() == 1 || d[0].first < r * r * d[1].first)) e.emplace_back(i, d[0].second); } chk(find_raw_matches(std::execution::seq, a, b, r, man), e, "matching with a distance of the caller");
}
