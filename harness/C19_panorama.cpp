// C19: finding the homography of two overlapping photographs from their pixels, and stitching sequences
// vp-flags: -noasan -O2
#include "img.h"
#include <iostream>
using namespace g;
using namespace TinyDIP;
typedef linalg::Matrix<double> M;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
// a scene of many random blobs of which two crops are taken, the second displaced by dx, dy
struct Scene { int W = 96, H = 80, dx, dy; Image<RGB> a, b; };
static Scene scene(std::uint64_t seed, int dx, int dy)
{
    Scene c; c.dx = dx; c.dy = dy; std::mt19937 r(static_cast<unsigned>(seed)); auto u = [&] { return static_cast<double>(r() % 65536) / 65536; };
    int w = c.W + std::abs(dx), h = c.H + std::abs(dy); std::vector<double> v(static_cast<std::size_t>(w * h), 90);
    for (int k = 0; k < w * h / 60; ++k) { double cx = u() * w, cy = u() * h, sg = 1 + u() * 3, am = (u() - 0.5) * 260; int R = static_cast<int>(6 * sg) + 1; for (int y = std::max(0, int(cy) - R); y < std::min(h, int(cy) + R); ++y) for (int x = std::max(0, int(cx) - R); x < std::min(w, int(cx) + R); ++x) v[static_cast<std::size_t>(y * w + x)] += am * std::exp(-((x - cx) * (x - cx) + (y - cy) * (y - cy)) / (2 * sg * sg)); }
    auto crop = [&](int ox, int oy) { Image<RGB> im(static_cast<std::size_t>(c.W), static_cast<std::size_t>(c.H)); for (int y = 0; y < c.H; ++y) for (int x = 0; x < c.W; ++x) { int q = std::clamp(static_cast<int>(v[static_cast<std::size_t>((y + oy) * w + x + ox)]), 6, 255); im.at(static_cast<std::size_t>(x), static_cast<std::size_t>(y)) = RGB{{static_cast<std::uint8_t>(q), static_cast<std::uint8_t>(q / 2 + 3), static_cast<std::uint8_t>(q / 3 + 4)}}; } return im; };
    c.a = crop(dx < 0 ? -dx : 0, dy < 0 ? -dy : 0); c.b = crop(dx > 0 ? dx : 0, dy > 0 ? dy : 0); return c;
}
static double worst(const Scene& c, const M& h)
{
    if (h.rows() != 3 || h.cols() != 3) return 1e9; double e = 0;
    for (int y = std::max(0, c.dy); y < c.H + std::min(0, c.dy); y += 3) for (int x = std::max(0, c.dx); x < c.W + std::min(0, c.dx); x += 3) { double w = h.at(2, 0) * x + h.at(2, 1) * y + h.at(2, 2), X = (h.at(0, 0) * x + h.at(0, 1) * y + h.at(0, 2)) / w, Y = (h.at(1, 0) * x + h.at(1, 1) * y + h.at(1, 2)) / w, d = std::hypot(X - (x - c.dx), Y - (y - c.dy)); if (!(d <= e)) e = d; }
    return e;
}
static int shift(Src& s, int m) { int v = static_cast<int>(s.draw(static_cast<std::uint64_t>(m))); return s.flip() ? -v : v; }
PROP(found, "the second photograph is displaced")
{   // the estimate is robust, not exact: of three scenes at least one is registered to three pixels (a single one is missed in fewer than one of a hundred)
    std::string log; for (int t = 0; t < 3; ++t) {
        int dx = shift(s, 30), dy = shift(s, 20); std::uint64_t seed = s.draw(1u << 30); s.desc << "shift " << dx << "," << dy << " scene " << seed << "; "; s.nontrivial(dx || dy); auto c = scene(seed, dx, dy); SiftParams<double> p; p.contrast_check_threshold = 4; std::mt19937 rng(static_cast<unsigned>(seed)); M h; auto a0 = c.a, b0 = c.b;
        { Quiet q; int k = static_cast<int>(s.draw(2)); if (k == 0) h = find_stitch_homography<decltype(std::execution::seq)&, double>(std::execution::seq, c.a, c.b, rng, RobustEstimatorMethod::MSAC, p); else if (k == 1) h = find_stitch_homography<decltype(std::execution::par)&, double>(std::execution::par, c.a, c.b, rng, RobustEstimatorMethod::RANSAC, p); else h = find_stitch_homography<double>(c.a, c.b, p); }
        req_eq(c.a, a0, "first photograph afterwards"); req_eq(c.b, b0, "second photograph afterwards");
        double e = worst(c, h); if (e <= 3) return; log += " " + std::to_string(e);
    }
    REQ(false, "three scenes in a row are registered off by" << log << " pixels");
}
PROP(stitched, "the second photograph is displaced")
{
    std::string log; for (int t = 0; t < 3; ++t) {
        int dx = shift(s, 30), dy = shift(s, 20); std::uint64_t seed = s.draw(1u << 30); s.desc << "shift " << dx << "," << dy << " scene " << seed << "; "; s.nontrivial(dx || dy); auto c = scene(seed, dx, dy); bool seq = s.flip(); Image<RGB> o; std::vector<Image<RGB>> none, one{c.a}, two{c.a, c.b};
        { Quiet q; REQ(stitch_sequential(none).getSize().empty() || stitch_sequential(none).count() == 0, "a picture of nothing"); req_eq(stitch_sequential(one), c.a, "a single photograph stitched"); if (seq) o = stitch_sequential(two); else o = imstitch<double>(c.a, c.b); }
        int ew = c.W + std::abs(dx), eh = c.H + std::abs(dy), gw = o.getSize().size() == 2 ? static_cast<int>(o.getWidth()) : 0, gh = gw ? static_cast<int>(o.getHeight()) : 0;
        if (std::abs(gw - ew) <= 4 && std::abs(gh - eh) <= 4) return; log += " " + std::to_string(gw) + "x" + std::to_string(gh) + " for " + std::to_string(ew) + "x" + std::to_string(eh);
    }
    REQ(false, "three canvases in a row have the wrong size:" << log);
}
PROP(featureless, "always")
{   // photographs without features cannot be registered
    Sz z{s.sz(1, 40), s.sz(1, 40)}; RGB v{{static_cast<std::uint8_t>(s.draw(255)), static_cast<std::uint8_t>(s.draw(255)), static_cast<std::uint8_t>(s.draw(255))}}; Image<RGB> a(z[0], z[1]); a.setAllValue(v); s.desc << z[0] << "x" << z[1]; s.nontrivial(true); M h; Image<RGB> o, p; std::vector<Image<RGB>> two{a, a}; { Quiet q; h = find_stitch_homography<double>(a, a); o = imstitch<double>(a, a); p = stitch_sequential(two); }
    REQ(h.empty(), "a homography of two plain pictures"); REQ(o.getSize().empty() || o.count() == 0, "a stitched picture of two plain pictures"); req_eq(p, a, "the sequence ends at the first photograph");
}
