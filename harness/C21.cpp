// C21: drawing points, circles, lines, matches and borders
#include "img.h"
using namespace g;
using namespace TinyDIP;
typedef Point<2> P;
static std::size_t co(Src& s, std::size_t n) { switch (s.draw(3)) { case 0: return 0; case 1: return n - 1; case 2: return s.draw(n - 1); default: return s.tail(0, n + 4, n + 1500); } }
static P pt(Src& s, const Sz& z) { std::size_t x = co(s, z[0]), y = co(s, z[1]); return P{{x, y}}; }
static Sz sz2(Src& s, std::size_t m) { return wide2(s, m, m); }

// every pixel for which in() holds has the colour, every other one is as before
template<class T, class F> static void drawn(const Image<T>& out, const Image<T>& in, const T& c, F inside, const char* what)
{
    REQ(out.getSize() == in.getSize(), what << ": size " << str(out.getSize())); std::size_t w = in.getWidth(); for (std::size_t i = 0; i < data(in).size(); ++i) { long x = static_cast<long>(i % w), y = static_cast<long>(i / w); T e = inside(x, y) ? c : in.get(i); REQ(out.get(i) == e, what << ": pixel " << x << "," << y << " is " << ps(out.get(i)) << " expected " << ps(e)); }
}
static auto disc(P p, std::size_t r) { return [p, r](long x, long y) { long dx = x - static_cast<long>(p.p[0]), dy = y - static_cast<long>(p.p[1]); return dx * dx + dy * dy < static_cast<long>(r * r); }; }

template<class T, class G> static void points(Src& s, G gen_)
{
    Sz z = sz2(s, 12); auto a = gen(s, z, gen_); T c = gen_(s); std::size_t r = s.tail(0, 6, 80); std::vector<P> v(s.draw(3)); for (auto& p : v) p = pt(s, z); P q = pt(s, z); if (r > 6 && s.flip()) q.p[s.draw(1)] += r - s.draw(6); s.desc << str(z) << " point " << q.p[0] << "," << q.p[1] << " radius " << r << " and " << v.size() << " points"; s.nontrivial(r > 0 && (q.p[0] < r || q.p[1] < r)); const auto a0 = a;
    drawn(draw_point(a, q, c, r), a, c, disc(q, r), "draw_point"); drawn(draw_point(a, q, c), a, c, disc(q, 3), "draw_point with the default radius"); drawn(draw_point(a, q), a, T{}, disc(q, 3), "draw_point with the default value"); req_eq(a, a0, "the input changes");
    drawn(draw_points(a, v, c, r), a, c, [&](long x, long y) { for (auto& p : v) if (disc(p, r)(x, y)) return true; return false; }, "draw_points"); drawn(draw_points(a, v), a, T{}, [&](long x, long y) { for (auto& p : v) if (disc(p, 3)(x, y)) return true; return false; }, "draw_points with defaults");
}
PROP(points_grey, "the point reaches over the left or top border") { points<int>(s, [](Src& t) { return static_cast<int>(t.sint(100)); }); }
PROP(points_colour, "the point reaches over the left or top border") { points<RGB>(s, [](Src& t) { return grgb(t); }); }

static std::vector<std::pair<long, long>> ring(long r)
{   // per column of the octant the first pixel not inside the circle
    std::vector<std::pair<long, long>> o; if (r == 0) return o; for (long x = 0, prev = r; x <= prev; ++x) { long y = 0; while (x * x + y * y < r * r) ++y; for (int sx : {-1, 1}) for (int sy : {-1, 1}) { o.emplace_back(sx * x, sy * y); o.emplace_back(sx * y, sy * x); } prev = y; } return o;
}
PROP(circle, "part of the circle lies in the image")
{
    Sz z = sz2(s, 14); auto a = rgbimg(s, z); RGB c = grgb(s); std::size_t r = s.tail(0, 9, 900), cx = co(s, z[0]), cy = co(s, z[1]); if (r > 9) { (s.flip() ? cx : cy) = r + s.draw(12); } auto b = iimg(s, z); int k = static_cast<int>(s.sint(9)); s.desc << str(z) << " centre " << cx << "," << cy << " radius " << r; auto on = ring(static_cast<long>(r)); bool vis = false; std::vector<bool> m(prod(z)); for (auto [dx, dy] : on) { long x = static_cast<long>(cx) + dx, y = static_cast<long>(cy) + dy; if (x >= 0 && y >= 0 && x < static_cast<long>(z[0]) && y < static_cast<long>(z[1])) { m[static_cast<std::size_t>(y) * z[0] + static_cast<std::size_t>(x)] = true; vis = true; } } s.nontrivial(vis);
    auto in = [&](long x, long y) { return bool(m[static_cast<std::size_t>(y) * z[0] + static_cast<std::size_t>(x)]); }; drawn(draw_circle(a, std::make_tuple(cx, cy), r, c), a, c, in, "draw_circle"); drawn(draw_circle(b, std::make_tuple(cx, cy), r, k), b, k, in, "draw_circle of numbers"); Sz w = dims(s, 1, 4, 1, 3); if (w.size() == 2) w.push_back(1); auto q = dimg(s, w); REQ(throws<std::runtime_error>([&] { (void)draw_circle(q, std::make_tuple(std::size_t{0}, std::size_t{0}), 2, 1.0); }), "a circle in an image of " << w.size() << " dimensions");
}
// the pixels between a and a_: exactly one per step along the longer axis, nearest to the ideal line
static void line_ok(const Image<int>& out, const Image<int>& in, P p, P q, int c)
{
    REQ(out.getSize() == in.getSize(), "size"); long x1 = static_cast<long>(p.p[0]), y1 = static_cast<long>(p.p[1]), x2 = static_cast<long>(q.p[0]), y2 = static_cast<long>(q.p[1]), w = static_cast<long>(in.getWidth()), h = static_cast<long>(in.getHeight()); long dx = x2 - x1, dy = y2 - y1; bool xm = std::abs(dx) >= std::abs(dy); long n = xm ? std::abs(dx) : std::abs(dy); std::vector<bool> ok(static_cast<std::size_t>(w * h));
    for (long t = 0; t <= n; ++t)
    {
        double mx = n ? static_cast<double>(x1) + static_cast<double>(dx) * static_cast<double>(t) / static_cast<double>(n) : static_cast<double>(x1), my = n ? static_cast<double>(y1) + static_cast<double>(dy) * static_cast<double>(t) / static_cast<double>(n) : static_cast<double>(y1); long hit = 0; bool mayleave = false;
        for (long o = -1; o <= 1; ++o) { long x = xm ? std::lround(mx) : std::lround(mx) + o, y = xm ? std::lround(my) + o : std::lround(my); double dev = xm ? std::fabs(static_cast<double>(y) - my) : std::fabs(static_cast<double>(x) - mx); bool ins = x >= 0 && y >= 0 && x < w && y < h; if (dev > 0.5 + 1e-9) continue; if (!ins) { mayleave = true; continue; } if (out.get(static_cast<std::size_t>(y * w + x)) == c) { ++hit; ok[static_cast<std::size_t>(y * w + x)] = true; } }
        REQ(hit == 1 || (hit == 0 && mayleave), "step " << t << " of the line has " << hit << " pixels");
    }
    for (long i = 0; i < w * h; ++i) if (!ok[static_cast<std::size_t>(i)]) REQ(out.get(static_cast<std::size_t>(i)) == in.get(static_cast<std::size_t>(i)), "pixel " << i % w << "," << i / w << " off the line changes");
    for (auto [x, y] : {std::pair(x1, y1), std::pair(x2, y2)}) if (x < w && y < h) REQ(out.get(static_cast<std::size_t>(y * w + x)) == c, "an end of the line is missing");
}
PROPW(line, 2, "a line that is neither horizontal, vertical nor diagonal")
{
    Sz z = sz2(s, 14); auto a = gen(s, z, [](Src& t) { return static_cast<int>(t.draw(50)); }); P p = pt(s, z), q = s.chance(1, 8) ? p : pt(s, z); s.desc << str(z) << " from " << p.p[0] << "," << p.p[1] << " to " << q.p[0] << "," << q.p[1]; long dx = std::labs(static_cast<long>(p.p[0]) - static_cast<long>(q.p[0])), dy = std::labs(static_cast<long>(p.p[1]) - static_cast<long>(q.p[1])); s.nontrivial(dx && dy && dx != dy); const auto a0 = a; line_ok(draw_line(a, p, q, 77), a, p, q, 77); req_eq(a, a0, "the input changes"); auto c = rgbimg(s, z); RGB col = grgb(s); auto e = draw_line(c, p, q, col); auto r = draw_line(a, p, q, 77); drawn(e, c, col, [&](long x, long y) { return r.get(static_cast<std::size_t>(y) * z[0] + static_cast<std::size_t>(x)) == 77; }, "a line in colour");
    Sz w = dims(s, 1, 4, 1, 3); if (w.size() == 2) w.push_back(1); auto b = iimg(s, w); REQ(throws<std::runtime_error>([&] { (void)draw_line(b, p, q, 1); }), "a line in an image of " << w.size() << " dimensions");
}
PROP(matches, "at least one match")
{
    Sz z = sz2(s, 10), y = Sz{s.sz(1, 10), s.chance(1, 3) ? s.sz(1, 10) : z[1]}; auto dark = [](Src& t) { RGB c; for (auto& e : c.channels) e = static_cast<std::uint8_t>(t.draw(100)); return c; }; auto a = gen(s, z, dark), b = gen(s, y, dark); bool same_h = z[1] == y[1]; std::vector<P> k1(s.sz(1, 3)), k2(s.sz(1, 3)); for (auto& p : k1) p = P{{s.draw(z[0] - 1), s.draw(z[1] - 1)}}; for (auto& p : k2) p = P{{s.draw(y[0] - 1), s.draw(y[1] - 1)}}; std::vector<std::pair<std::size_t, std::size_t>> m(same_h ? s.draw(2) : 0); for (auto& e : m) e = {s.draw(k1.size() - 1), s.draw(k2.size() - 1)}; s.desc << str(z) << " and " << str(y) << " with " << m.size() << " matches"; s.nontrivial(!m.empty());
    auto o = draw_matches(a, b, k1, k2, m); REQ(o.getSize() == (Sz{z[0] + y[0], std::max(z[1], y[1])}), "canvas " << str(o.getSize()));
    for (std::size_t v = 0; v < o.getHeight(); ++v) for (std::size_t u = 0; u < o.getWidth(); ++u) { if (u < z[0] ? v >= z[1] || z[1] < y[1] : y[1] < z[1]) continue; RGB e = u < z[0] ? px(a, u, v) : px(b, u - z[0], v), c = px(o, u, v); bool lit = c.channels[0] >= 127 && c.channels[1] >= 127 && c.channels[2] >= 127, in = false, may = false; for (auto& [i, j] : m) { P q{{k2[j].p[0] + z[0], k2[j].p[1]}}; long x = static_cast<long>(u), w = static_cast<long>(v); in |= disc(k1[i], 5)(x, w) || disc(q, 5)(x, w); double dx = static_cast<double>(q.p[0]) - static_cast<double>(k1[i].p[0]), dy = static_cast<double>(q.p[1]) - static_cast<double>(k1[i].p[1]), L = std::hypot(dx, dy), d = L > 0 ? std::fabs((static_cast<double>(u) - static_cast<double>(k1[i].p[0])) * dy - (static_cast<double>(v) - static_cast<double>(k1[i].p[1])) * dx) / L : 9; may |= d <= 1; } if (in) REQ(lit, "no mark at " << u << "," << v); else if (!may) REQ(c == e, "pixel " << u << "," << v << " changes"); else REQ(lit || c == e, "pixel " << u << "," << v << " has a foreign colour"); }
}
PROP(border, "a border of more than zero")
{
    Sz z = sz2(s, 6); std::size_t w = s.tail(0, 4, 60); auto a = rgbimg(s, z); RGB c = grgb(s); auto d = dimg(s, z); double k = s.dyadic(9, 4); s.desc << str(z) << " border " << w; s.nontrivial(w > 0);
    auto chk = [&](const auto& o, const auto& i, auto v, const char* what) { REQ(o.getSize() == (Sz{z[0] + 2 * w, z[1] + 2 * w}), what << ": size " << str(o.getSize())); for (std::size_t y = 0; y < o.getHeight(); ++y) for (std::size_t x = 0; x < o.getWidth(); ++x) { bool in = x >= w && y >= w && x < w + z[0] && y < w + z[1]; auto e = in ? px(i, x - w, y - w) : v; REQ(px(o, x, y) == e, what << ": pixel " << x << "," << y); } };
    chk(add_border_2d(std::execution::seq, a, w, c), a, c, "seq"); chk(add_border_2d(std::execution::par, a, w, c), a, c, "par"); chk(add_border_2d(std::execution::par_unseq, d, w, k), d, k, "doubles"); Sz q = dims(s, 1, 4, 1, 3); if (q.size() == 2) q.push_back(1); auto b = dimg(s, q); REQ(throws<std::runtime_error>([&] { (void)add_border_2d(std::execution::seq, b, w, k); }), "a border around " << q.size() << " dimensions");
}
