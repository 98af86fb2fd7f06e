// C19: homographies, perspective warps and stitching
#include "img.h"
#include <iostream>
using namespace g;
using namespace TinyDIP;
typedef long double L;
typedef linalg::Matrix<double> M;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
static std::string str(const M& m) { std::ostringstream o; for (std::size_t i = 0; i < m.rows(); ++i) { o << (i ? "; " : "["); for (std::size_t j = 0; j < m.cols(); ++j) o << (j ? " " : "") << m.at(i, j); } o << "]"; return o.str(); }
static std::array<L, 3> app(const M& h, L x, L y) { L w = L(h.at(2, 0)) * x + L(h.at(2, 1)) * y + h.at(2, 2); return {(L(h.at(0, 0)) * x + L(h.at(0, 1)) * y + h.at(0, 2)) / w, (L(h.at(1, 0)) * x + L(h.at(1, 1)) * y + h.at(1, 2)) / w, w}; }
static M inv(const M& h) { M r(3, 3); L d = 0; auto c = [&](std::size_t i, std::size_t j) { std::size_t a = (i + 1) % 3, b = (i + 2) % 3, p = (j + 1) % 3, q = (j + 2) % 3; return L(h.at(a, p)) * h.at(b, q) - L(h.at(a, q)) * h.at(b, p); }; for (std::size_t j = 0; j < 3; ++j) d += L(h.at(0, j)) * c(0, j); for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) r.at(j, i) = static_cast<double>(c(i, j) / d); return r; }

// integer affine maps give exact point pairs
static M gaff(Src& s) { M h(3, 3); int a, b, c, d; do { a = static_cast<int>(s.sint(2)); b = static_cast<int>(s.sint(2)); c = static_cast<int>(s.sint(2)); d = static_cast<int>(s.sint(2)); if (a * d - b * c == 0) { a = 1 + (b * c == 1); d = 1; if (a * d - b * c == 0) { b = 0; } } } while (false); h.at(0, 0) = a; h.at(0, 1) = b; h.at(1, 0) = c; h.at(1, 1) = d; h.at(2, 2) = 1; h.at(0, 2) = static_cast<double>(200 + s.draw(50)); h.at(1, 2) = static_cast<double>(200 + s.draw(50)); return h; }
typedef std::vector<std::pair<Point<2>, Point<2>>> Pairs;
static Point<2> mapi(const M& h, std::size_t x, std::size_t y) { auto q = app(h, x, y); return Point<2>{{static_cast<std::size_t>(std::llround(q[0])), static_cast<std::size_t>(std::llround(q[1]))}}; }
// points of which four form a wide quadrangle, so that the map is well determined
static std::vector<Point<2>> gpts(Src& s, std::size_t extra) { std::vector<Point<2>> v{{{s.draw(5), s.draw(5)}}, {{45 + s.draw(5), s.draw(5)}}, {{s.draw(5), 45 + s.draw(5)}}, {{40 + s.draw(10), 40 + s.draw(10)}}}; for (std::size_t i = 0; i < extra; ++i) v.push_back({{s.draw(50), s.draw(50)}}); for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.draw(i - 1)]); return v; }
static double err(const M& h, const Point<2>& p, const Point<2>& q) { auto r = app(h, static_cast<L>(p.p[0]), static_cast<L>(p.p[1])); return static_cast<double>(std::hypot(r[0] - static_cast<L>(q.p[0]), r[1] - static_cast<L>(q.p[1]))); }

PROPW(direct, 2, "more than four points")
{
    M H = gaff(s); auto v = gpts(s, s.draw(8)); Pairs pp; for (auto& p : v) pp.emplace_back(p, mapi(H, p.p[0], p.p[1])); s.desc << v.size() << " points of " << str(H); s.nontrivial(v.size() > 4); M G; REQ(compute_homography<double>(pp, G), "no homography found"); REQ(G.rows() == 3 && G.cols() == 3 && G.at(2, 2) == 1, "not scaled to unit last element");
    for (auto& [p, q] : pp) REQ(err(G, p, q) < 1e-2, "point " << p.p[0] << "," << p.p[1] << " lands " << err(G, p, q) << " away from its partner"); for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) REQ(close(G.at(i, j), H.at(i, j), 1e-3, j == 2 ? 2e-2 : 2e-3), "element " << i << "," << j << " is " << G.at(i, j) << " expected " << H.at(i, j));
    std::size_t few = s.draw(3); Pairs q(pp.begin(), pp.begin() + static_cast<long>(few)); REQ(!compute_homography<double>(q, G), few << " points accepted");
}
PROP(perspective_points, "a perspective map")
{   // four pairs in general position determine the map even when it is a true perspective
    Pairs pp{{Point<2>{{s.draw(4), s.draw(4)}}, Point<2>{{s.draw(6), s.draw(6)}}}, {Point<2>{{40 + s.draw(9), s.draw(4)}}, Point<2>{{40 + s.draw(9), s.draw(6)}}}, {Point<2>{{s.draw(4), 40 + s.draw(9)}}, Point<2>{{s.draw(6), 40 + s.draw(9)}}}, {Point<2>{{40 + s.draw(9), 40 + s.draw(9)}}, Point<2>{{40 + s.draw(9), 40 + s.draw(9)}}}}; for (auto& [a, b] : pp) s.desc << a.p[0] << "," << a.p[1] << "->" << b.p[0] << "," << b.p[1] << " "; s.nontrivial(); M G; REQ(compute_homography<double>(pp, G), "no homography found"); for (auto& [p, q] : pp) REQ(err(G, p, q) < 1e-3, "point lands " << err(G, p, q) << " away from its partner");
}
PROPW(robust, 2, "some matches are wrong")
{
    M H = gaff(s); auto v = gpts(s, 8 + s.draw(12)); std::vector<Point<2>> w; std::size_t n = v.size(), out = s.draw(n / 4); for (auto& p : v) w.push_back(mapi(H, p.p[0], p.p[1])); std::vector<bool> bad(n); for (std::size_t i = 0; i < out; ++i) { std::size_t k = s.draw(n - 1); bad[k] = true; w[k].p[0] += 20 + s.draw(60); w[k].p[1] += s.draw(60); }
    std::vector<std::size_t> perm(n); for (std::size_t i = 0; i < n; ++i) perm[i] = i; for (std::size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[s.draw(i - 1)]); std::vector<Point<2>> w2(n); std::vector<std::pair<std::size_t, std::size_t>> m; for (std::size_t i = 0; i < n; ++i) { w2[perm[i]] = w[i]; m.emplace_back(i, perm[i]); } std::size_t nb = 0; for (bool b : bad) nb += b; s.desc << n << " matches, " << nb << " wrong, of " << str(H); s.nontrivial(nb > 0);
    std::mt19937 rng(static_cast<unsigned>(s.draw(100000))); M R, F; auto me = s.flip() ? RobustEstimatorMethod::RANSAC : RobustEstimatorMethod::MSAC; { Quiet q; R = find_homography_robust<double>(v, w2, m, rng, me, 300, 2.0); F = refine_homography<double>(v, w2, m, R, 2.0); } REQ(R.rows() == 3 && F.rows() == 3, "shape");
    std::size_t in = 0, worse = 0; for (std::size_t i = 0; i < n; ++i) { if (bad[i]) continue; in += err(R, v[i], w[i]) < 2.0; worse += err(F, v[i], w[i]) > 0.5; } REQ(in == n - nb, "the robust estimate explains " << in << " of " << n - nb << " right matches"); 
    std::size_t badin = 0; for (std::size_t i = 0; i < n; ++i) badin += bad[i] && err(R, v[i], w[i]) < 2.0; if (!badin) REQ(worse == 0, "after refinement " << worse << " right matches are off by more than half a pixel");
    std::vector<std::pair<std::size_t, std::size_t>> few(m.begin(), m.begin() + static_cast<long>(s.draw(3))); M K; { Quiet q; K = find_homography_robust<double>(v, w2, few, rng, me, 20, 2.0); } REQ(K.empty() || linalg::invert(K).empty(), "a usable map from " << few.size() << " matches"); { Quiet q; K = refine_homography<double>(v, w2, few, H, 2.0); } for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) REQ(K.at(i, j) == H.at(i, j), "refining with " << few.size() << " matches changes the map"); M E; { Quiet q; REQ(refine_homography<double>(v, w2, m, E, 2.0).empty(), "refining an empty map"); }
}
PROP(refine_all, "a first guess off by a pixel or more")
{   // a first guess that misses by less than the threshold everywhere: every match is an inlier and the exact map comes back
    M H = gaff(s); auto v = gpts(s, 6); std::vector<Point<2>> w; std::vector<std::pair<std::size_t, std::size_t>> m; for (std::size_t i = 0; i < v.size(); ++i) { w.push_back(mapi(H, v[i].p[0], v[i].p[1])); m.emplace_back(i, i); } double th = s.flip() ? static_cast<double>(1 + s.draw(14)) : 0.25 + 0.125 * static_cast<double>(s.draw(5)), r = th * s.real(0.05, 0.95), a = s.real(0, 6.283); M G = H; G.at(0, 2) += r * std::cos(a); G.at(1, 2) += r * std::sin(a); s.desc << "threshold " << th << " first guess off by " << r; s.nontrivial(r >= 1); M F; { Quiet q; F = refine_homography<double>(v, w, m, G, th); } for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) REQ(close(F.at(i, j), H.at(i, j), 1e-3, j == 2 ? 2e-2 : 2e-3), "element " << i << "," << j << " is " << F.at(i, j) << " expected " << H.at(i, j));
}
PROP(refine_inliers, "some matches beyond the threshold")
{   // only the matches nearer than the threshold take part
    M H = gaff(s); auto v = gpts(s, 6); std::vector<Point<2>> w; std::vector<std::pair<std::size_t, std::size_t>> m; double th = 1 + static_cast<double>(s.draw(4)); std::size_t far = 0; for (std::size_t i = 0; i < v.size(); ++i) { auto q = mapi(H, v[i].p[0], v[i].p[1]); bool core = (v[i].p[0] < 6 || v[i].p[0] > 39) && (v[i].p[1] < 6 || v[i].p[1] > 39); if (!core && s.flip()) { ++far; q.p[s.draw(1)] += static_cast<std::size_t>(th) + s.draw(30); } w.push_back(q); m.emplace_back(i, i); } s.desc << far << " of " << v.size() << " beyond " << th; s.nontrivial(far > 0); M F; { Quiet q; F = refine_homography<double>(v, w, m, H, th); } for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) REQ(close(F.at(i, j), H.at(i, j), 1e-3, j == 2 ? 2e-2 : 2e-3), "element " << i << "," << j << " is " << F.at(i, j) << " expected " << H.at(i, j));
}
static M ghom(Src& s, double persp) { M h(3, 3); for (std::size_t i = 0; i < 2; ++i) { h.at(i, i) = (s.flip() ? 1 : -1) * s.real(0.5, 2); h.at(i, 1 - i) = s.real(-0.4, 0.4); h.at(i, 2) = s.real(-8, 8); h.at(2, i) = s.chance(1, 2) ? 0 : s.real(-persp, persp); } h.at(2, 2) = s.flip() ? 1 : s.real(0.5, 2); return h; }
PROP(scaling, "sizes differ")
{
    M H = ghom(s, 0.01); std::size_t d[8]; for (auto& e : d) e = 1 + s.draw(999); s.desc << str(H); for (auto e : d) s.desc << " " << e; s.nontrivial(d[0] != d[2]); M G = scale_homography<double>(H, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    for (int t = 0; t < 4; ++t) { L x = s.real(0, 10), y = s.real(0, 10); auto full = app(H, x * d[0] / d[2], y * d[1] / d[3]); if (std::fabs(static_cast<double>(full[2])) < 0.05) continue; auto got = app(G, x, y); L wx = full[0] * d[6] / d[4], wy = full[1] * d[7] / d[5]; REQ(close(static_cast<double>(got[0]), static_cast<double>(wx), 1e-7, 1e-7) && close(static_cast<double>(got[1]), static_cast<double>(wy), 1e-7, 1e-7), "scaled map sends " << static_cast<double>(x) << "," << static_cast<double>(y) << " to " << static_cast<double>(got[0]) << "," << static_cast<double>(got[1]) << " expected " << static_cast<double>(wx) << "," << static_cast<double>(wy)); }
}
PROPW(warping, 2, "more than one output pixel")
{
    M H = ghom(s, 0.03); Sz z{s.sz(1, 5), s.sz(1, 5)}; auto a = dimg(s, z); std::size_t w = s.sz(1, 8), h = s.sz(1, 8); s.desc << str(H) << " to " << w << "x" << h; s.nontrivial(w * h > 1); auto enc = [](const Image<double>&, double x, double y) { return std::complex<double>(x, y); }; (void)enc;
    // the interpolation function tells where it is asked
    auto fx = [](const Image<double>&, double x, double) { return x; }; auto fy = [](const Image<double>&, double, double y) { return y; }; M I = inv(H);
    auto ox = warp_perspective<double, double, decltype(fx)>{}(a, H, w, h, std::move(fx)); auto oy = warp_perspective<double, double, decltype(fy)>{}(a, H, w, h, std::move(fy)); auto px_ = warp_perspective<double, double, decltype(fx)>{}(std::execution::par, a, H, w, h, std::move(fx)); auto py_ = warp_perspective<double, double, decltype(fy)>{}(std::execution::seq, a, H, w, h, std::move(fy));
    REQ(ox.getSize() == (Sz{w, h}) && px_.getSize() == (Sz{w, h}), "size");
    for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) { auto q = app(H, x, y); if (std::fabs(static_cast<double>(q[2])) > 0.02) REQ(close(px(ox, x, y), static_cast<double>(q[0]), 1e-8, 1e-8) && close(px(oy, x, y), static_cast<double>(q[1]), 1e-8, 1e-8), "output " << x << "," << y << " is taken from " << px(ox, x, y) << "," << px(oy, x, y) << " expected " << static_cast<double>(q[0]) << "," << static_cast<double>(q[1])); auto r = app(I, x, y); if (std::fabs(static_cast<double>(r[2])) > 0.02) REQ(close(px(px_, x, y), static_cast<double>(r[0]), 1e-6, 1e-6) && close(px(py_, x, y), static_cast<double>(r[1]), 1e-6, 1e-6), "with policy, output " << x << "," << y << " is taken from " << px(px_, x, y) << "," << px(py_, x, y) << " expected " << static_cast<double>(r[0]) << "," << static_cast<double>(r[1])); }
    Quiet q; M E; auto e = warp_perspective<double>{}(a, E, w, h); auto ep = warp_perspective<double>{}(std::execution::seq, a, E, w, h); M Z(3, 3); Z.at(0, 0) = 1; auto ez = warp_perspective<double>{}(std::execution::seq, a, Z, w, h); for (auto* i : {&e, &ep, &ez}) { REQ(i->getSize() == (Sz{w, h}), "size without a map"); for (auto v : data(*i)) REQ(v == 0, "content without a usable map"); }
}
PROP(warp_identity, "more than one pixel")
{
    Sz z{s.sz(2, 7), s.sz(2, 7)}; auto a = rgbimg(s, z); auto d = dimg(s, z); M I(3, 3); for (std::size_t i = 0; i < 3; ++i) I.at(i, i) = 1; s.desc << show(a, 5); s.nontrivial(prod(z) > 4); auto o = warp_perspective<double>{}(d, I, z[0], z[1]); auto op = warp_perspective<double>{}(std::execution::par, d, I, z[0], z[1]); for (std::size_t y = 0; y + 1 < z[1]; ++y) for (std::size_t x = 0; x + 1 < z[0]; ++x) REQ(close(px(o, x, y), px(d, x, y), 1e-12, 1e-12) && close(px(op, x, y), px(d, x, y), 1e-12, 1e-12), "identity warp changes " << x << "," << y); auto c = warp_perspective<RGB>{}(a, I, z[0], z[1]); for (std::size_t y = 0; y + 1 < z[1]; ++y) for (std::size_t x = 0; x + 1 < z[0]; ++x) REQ(same(px(c, x, y), px(a, x, y)), "identity warp changes colour " << x << "," << y << " to " << ps(px(c, x, y)) << " from " << ps(px(a, x, y)));
}
struct NN { RGB operator()(const Image<RGB>& im, double x, double y) const { double u = std::floor(x + 0.5), v = std::floor(y + 0.5); if (!(u >= 0 && v >= 0 && u < static_cast<double>(im.getWidth()) && v < static_cast<double>(im.getHeight()))) return RGB{{0, 0, 0}}; return px(im, static_cast<std::size_t>(u), static_cast<std::size_t>(v)); } };
PROPW(stitching, 2, "the canvas grows to the left or top")
{
    Sz z{s.sz(1, 8), s.sz(1, 8)}, y{s.sz(1, 8), s.sz(1, 8)}; auto a = rgbimg(s, z), b = rgbimg(s, y); M H(3, 3); int mode = static_cast<int>(s.draw(2)); if (mode < 2) { H.at(0, 0) = H.at(1, 1) = H.at(2, 2) = 1; if (mode == 1) { H.at(0, 0) = s.pick({1.0, -1.0, 2.0, 0.5}); H.at(1, 1) = s.pick({1.0, -1.0, 2.0, 0.5}); } H.at(0, 2) = s.dyadic(8, 4); H.at(1, 2) = s.dyadic(8, 4); } else { H = ghom(s, 0.01); }
    s.desc << str(H) << " " << show(a, 3) << " " << show(b, 3); M I = inv(H); L x0 = 0, y0 = 0, x1 = z[0], y1 = z[1]; for (int k = 0; k < 4; ++k) { auto q = app(I, k & 1 ? y[0] - 1 : 0, k & 2 ? y[1] - 1 : 0); if (std::fabs(static_cast<double>(q[2])) < 0.2) return; x0 = std::min(x0, q[0]); x1 = std::max(x1, q[0]); y0 = std::min(y0, q[1]); y1 = std::max(y1, q[1]); }
    // extents and shifts on the verge of the next whole number may fall on either side
    auto verge = [](L v) { double f = static_cast<double>(v - std::round(v)); return f != 0 && std::fabs(f) < 1e-6; }; auto verge2 = [&](L v) { return std::fabs(static_cast<double>(v - std::round(v))) < 1e-6; };
    bool exact = mode == 0; if (exact ? (verge(x0) || verge(y0)) : ((x0 != 0 && verge2(x0)) || (y0 != 0 && verge2(y0)) || (x1 != static_cast<L>(z[0]) && verge2(x1 - x0)) || (y1 != static_cast<L>(z[1]) && verge2(y1 - y0)) || verge(x1 - x0) || verge(y1 - y0))) return; if (x1 - x0 > 60 || y1 - y0 > 60) return; s.nontrivial(x0 < 0 || y0 < 0);
    std::size_t W = static_cast<std::size_t>(std::ceil(x1 - x0)), Hh = static_cast<std::size_t>(std::ceil(y1 - y0)); Image<RGB> o, p; { Quiet q; o = create_stitched_image<double, NN, warp_perspective<RGB, double, NN>>(a, b, H, warp_perspective<RGB, double, NN>{}, NN{}); p = create_stitched_image(std::execution::par, a, b, H, warp_perspective<RGB, double, NN>{}, NN{}); }
    REQ(o.getSize() == (Sz{W, Hh}) && p.getSize() == (Sz{W, Hh}), "canvas is " << g::str(o.getSize()) << " (with policy " << g::str(p.getSize()) << ") expected " << W << "x" << Hh); auto half = [](double v) { double f = v + 0.5 - std::floor(v + 0.5); return f < 1e-6 || f > 1 - 1e-6; };
    for (std::size_t v = 0; v < Hh; ++v) for (std::size_t u = 0; u < W; ++u) { auto q = app(H, static_cast<L>(u) + x0, static_cast<L>(v) + y0); double qx = static_cast<double>(q[0]), qy = static_cast<double>(q[1]); if (std::fabs(static_cast<double>(q[2])) < 1e-3 || half(qx) || half(qy)) continue; RGB wq = NN{}(b, qx, qy); bool hw = wq.channels[0] > 5 || wq.channels[1] > 5 || wq.channels[2] > 5; L tx = -x0, ty = -y0; bool h1 = static_cast<L>(u) >= std::floor(tx) && static_cast<L>(u) < std::floor(tx + z[0]) && static_cast<L>(v) >= std::floor(ty) && static_cast<L>(v) < std::floor(ty + z[1]); RGB e{{0, 0, 0}}; bool slack = false;
        if (h1) { std::size_t i = static_cast<std::size_t>(std::max<L>(0, std::floor(static_cast<L>(u) - tx))), j = static_cast<std::size_t>(std::max<L>(0, std::floor(static_cast<L>(v) - ty))); e = px(a, i, j); if (hw) { slack = true; L al = static_cast<L>(i) / z[0]; for (int c = 0; c < 3; ++c) e.channels[c] = static_cast<std::uint8_t>(e.channels[c] * (1 - al) + wq.channels[c] * al + 1e-9L); } } else if (hw) e = wq;
        for (int c = 0; c < 3; ++c) for (auto* im : {&o, &p}) { int d = int(px(*im, u, v).channels[c]) - int(e.channels[c]); bool ok = d == 0; if (!ok && slack && d == -1) { std::size_t i = static_cast<std::size_t>(std::max<L>(0, std::floor(static_cast<L>(u) - tx))), j = static_cast<std::size_t>(std::max<L>(0, std::floor(static_cast<L>(v) - ty))); L al = static_cast<L>(i) / z[0]; ok = px(a, i, j).channels[c] * (1 - al) + wq.channels[c] * al < e.channels[c] + 1e-8L; } REQ(ok, (im == &o ? "" : "with policy, ") << "canvas pixel " << u << "," << v << " is " << ps(px(*im, u, v)) << " expected " << ps(e)); } }
    Quiet q; M E, S(3, 3); S.at(0, 0) = 1; REQ(create_stitched_image<double>(a, b, E).getWidth() == 0 && create_stitched_image(std::execution::seq, a, b, E).getWidth() == 0 && create_stitched_image<double>(a, b, S).getWidth() == 0 && create_stitched_image(std::execution::seq, a, b, S).getWidth() == 0, "a picture is stitched without a usable map");
}
