// C10: resampling: nearest neighbour, bicubic, Lanczos
// vp-flags: -O2
#include "img.h"
using namespace g;
using namespace TinyDIP;

static Sz sz2(Src& s, std::size_t hi = 12) { return wide2(s, hi, hi); }
static Sz newsz(Src& s, const Sz& z)
{
    switch (s.draw(4)) { case 0: return z; case 1: return Sz{z[0] * 2, z[1] * 3}; case 2: return Sz{s.sz(1, 24), z[1]}; default: return wide2(s, 24, 24); }
}
template<class T, class G> static void nearest(Src& s, G gg)
{
    Sz z = sz2(s), n = newsz(s, z); auto a = gen(s, z, gg); s.desc << show(a, 6) << " to " << str(n); s.nontrivial(n != z && prod(z) > 1);
    auto r = resize_nearest_neighbor(a, n[0], n[1]); REQ(r.getSize() == n, "size " << str(r.getSize()));
    auto src = [](std::size_t x, std::size_t o, std::size_t nn) { std::size_t e = x * o / nn, f = static_cast<std::size_t>(static_cast<double>(x) * (static_cast<double>(o) / static_cast<double>(nn))); return std::pair(e, f); };
    for (std::size_t y = 0; y < n[1]; ++y) for (std::size_t x = 0; x < n[0]; ++x) {
        auto [ex, fx] = src(x, z[0], n[0]); auto [ey, fy] = src(y, z[1], n[1]); T q = px(r, x, y);
        REQ(same(q, px(a, ex, ey)) || same(q, px(a, fx, fy)) || same(q, px(a, ex, fy)) || same(q, px(a, fx, ey)), "pixel " << x << "," << y << " is " << ps(q) << " expected the source pixel " << ex << "," << ey << " = " << ps(px(a, ex, ey)));
    }
    if (n == z) req_eq(r, a, "resizing to the same size changes nothing");
}
PROP(nearest_rgb, "the size changes") { nearest<RGB>(s, grgb); }
PROP(nearest_word, "the size changes") { nearest<std::uint16_t>(s, [](Src& t) { return static_cast<std::uint16_t>(t.flip() ? t.draw(65535) : 65535 - t.draw(300)); }); }
PROP(nearest_double, "the size changes") { nearest<double>(s, gd); }

// exact bicubic in double: value and the largest neighbour, for the tolerance
static double bic(const std::vector<double>& d, const Sz& z, double fx, double fy)
{
    auto cub = [](const double* v, double f) { double A = (v[3] - v[2]) - (v[0] - v[1]), B = (v[0] - v[1]) - A, C = v[2] - v[0], D = v[1]; return D + f * (C + f * (B + f * A)); };
    long ix = static_cast<long>(std::floor(fx)), iy = static_cast<long>(std::floor(fy)); double col[4];
    for (long j = -1; j <= 2; ++j) { double row[4]; for (long i = -1; i <= 2; ++i) row[i + 1] = d[static_cast<std::size_t>(std::clamp(iy + j, 0L, static_cast<long>(z[1]) - 1)) * z[0] + static_cast<std::size_t>(std::clamp(ix + i, 0L, static_cast<long>(z[0]) - 1))]; col[j + 1] = cub(row, fx - static_cast<double>(ix)); }
    return cub(col, fy - static_cast<double>(iy));
}
template<class T> static void judge(double got, double want, double eps, const std::string& w)
{
    if constexpr (std::is_integral_v<T>) {   // truncated and clamped to the type's range
        double lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
        double a = std::trunc(std::clamp(want - eps, lo, hi)), b = std::trunc(std::clamp(want + eps, lo, hi));
        REQ(got >= a && got <= b, w << " is " << got << " expected " << want << " truncated to an integer in range");
    } else REQ(std::fabs(got - want) <= eps, w << " is " << got << " expected " << want);
}
template<class FT, class T, class G> static void bicubic(Src& s, G gg, double eps)
{
    Sz z = sz2(s), n = newsz(s, z); auto a = gen(s, z, gg); s.desc << show(a, 6) << " to " << str(n); s.nontrivial(n != z && prod(z) > 1);
    auto r = copyResizeBicubic<FT>(a, n[0], n[1]); REQ(r.getSize() == n, "size " << str(r.getSize()));
    std::vector<double> d(data(a).begin(), data(a).end());
    for (std::size_t y = 0; y < n[1]; ++y) for (std::size_t x = 0; x < n[0]; ++x)
        judge<T>(static_cast<double>(px(r, x, y)), bic(d, z, static_cast<double>(x) * static_cast<double>(z[0]) / static_cast<double>(n[0]), static_cast<double>(y) * static_cast<double>(z[1]) / static_cast<double>(n[1])), eps, "bicubic pixel " + std::to_string(x) + "," + std::to_string(y));
    if (n == z) req_eq(r, a, "resizing to the same size changes nothing");
}
PROP(bicubic_double, "the size changes") { bicubic<double, double>(s, gd, 1e-9); }
PROP(bicubic_double_default_precision, "the size changes") { bicubic<float, double>(s, gd, 0.05); }
PROP(bicubic_float, "the size changes") { bicubic<float, float>(s, [](Src& t) { return static_cast<float>(t.dyadic(8, 8)); }, 0.02); }
PROP(bicubic_byte, "the size changes") { bicubic<float, std::uint8_t>(s, gb, 0.05); }
PROP(bicubic_byte_double, "the size changes") { bicubic<double, std::uint8_t>(s, gb, 1e-6); }
PROP(bicubic_int, "the size changes") { bicubic<double, int>(s, [](Src& t) { return static_cast<int>(t.sint(1000)); }, 1e-6); }
template<class P> static Image<P> cimg(Src& s, const Sz& z) { return gen(s, z, [](Src& t) { P p; for (auto& c : p.channels) { if constexpr (std::same_as<std::remove_cvref_t<decltype(c)>, std::uint8_t>) c = gb(t); else c = gd(t); } return p; }); }
template<class P> static void bicubic_colour(Src& s)
{
    Sz z = sz2(s, 7), n = newsz(s, z); auto a = cimg<P>(s, z); s.desc << show(a, 3) << " to " << str(n); s.nontrivial(n != z && prod(z) > 1);
    auto r = copyResizeBicubic(a, n[0], n[1]); REQ(r.getSize() == n, "size");
    for (std::size_t c = 0; c < 3; ++c) {
        std::vector<double> d; for (auto& q : data(a)) d.push_back(static_cast<double>(q.channels[c]));
        for (std::size_t i = 0; i < prod(n); ++i) judge<std::remove_cvref_t<decltype(r.get(0).channels[0])>>(static_cast<double>(r.get(i).channels[c]), bic(d, z, static_cast<double>(i % n[0]) * static_cast<double>(z[0]) / static_cast<double>(n[0]), static_cast<double>(i / n[0]) * static_cast<double>(z[1]) / static_cast<double>(n[1])), 1e-6, "bicubic channel " + std::to_string(c) + " of pixel " + std::to_string(i));
    }
}
PROP(bicubic_word, "the size changes") { bicubic<double, std::uint16_t>(s, [](Src& t) { return static_cast<std::uint16_t>(t.flip() ? t.draw(65535) : 65535 - t.draw(300)); }, 1e-6); }
PROP(bicubic_short, "the size changes") { bicubic<double, std::int16_t>(s, [](Src& t) { return static_cast<std::int16_t>(t.flip() ? t.sint(32767) : t.flip() ? 32767 - static_cast<int>(t.draw(90)) : -32768 + static_cast<int>(t.draw(90))); }, 1e-6); }
PROP(bicubic_rgb, "the size changes") { bicubic_colour<RGB>(s); }
PROP(bicubic_rgb_double, "the size changes") { bicubic_colour<RGB_DOUBLE>(s); }
PROP(bicubic_hsv, "the size changes") { bicubic_colour<HSV>(s); }

static double lk(double x, int a) { if (std::fabs(x) < 1e-15) return 1; if (std::fabs(x) >= a) return 0; double p = 3.14159265358979323846 * x; return a * std::sin(p) * std::sin(p / a) / (p * p); }
static double lan(const std::vector<double>& d, const Sz& z, double fx, double fy, int a)
{
    double t = 0, wt = 0; long ix = static_cast<long>(std::floor(fx)), iy = static_cast<long>(std::floor(fy));
    for (long j = iy - a; j <= iy + a + 1; ++j) for (long i = ix - a; i <= ix + a + 1; ++i) {
        double w = lk(fx - static_cast<double>(i), a) * lk(fy - static_cast<double>(j), a);
        wt += w; t += w * d[static_cast<std::size_t>(std::clamp(j, 0L, static_cast<long>(z[1]) - 1)) * z[0] + static_cast<std::size_t>(std::clamp(i, 0L, static_cast<long>(z[0]) - 1))]; }
    return t / wt;
}
static double mid(std::size_t x, std::size_t o, std::size_t n) { return (static_cast<double>(x) + 0.5) * (static_cast<double>(o) / static_cast<double>(n)) - 0.5; }
template<class T, class G> static void lanczos(Src& s, G gg, double eps)
{
    Sz z = sz2(s, 9), n = newsz(s, z); int k = static_cast<int>(s.draw(9) ? s.in(1, 4) : s.in(5, 9)); auto a = gen(s, z, gg); s.desc << show(a, 6) << " to " << str(n) << " a=" << k; s.nontrivial(n != z && prod(z) > 1);
    Image<T> r; switch (s.draw(3)) { case 0: r = lanczos_resample(a, n[0], n[1], k); break; case 1: r = lanczos_resample(std::execution::seq, a, n[0], n[1], k); break; case 2: r = lanczos_resample(std::execution::par, a, n[0], n[1], k); break; default: k = 3; r = s.flip() ? lanczos_resample(a, n[0], n[1]) : lanczos_resample(std::execution::par, a, n[0], n[1]); }
    REQ(r.getSize() == n, "size " << str(r.getSize())); std::vector<double> d(data(a).begin(), data(a).end());
    for (std::size_t y = 0; y < n[1]; ++y) for (std::size_t x = 0; x < n[0]; ++x)
        judge<T>(static_cast<double>(px(r, x, y)), lan(d, z, mid(x, z[0], n[0]), mid(y, z[1], n[1]), k), eps, "Lanczos pixel " + std::to_string(x) + "," + std::to_string(y));
}
PROP(lanczos_double, "the size changes") { lanczos<double>(s, gd, 1e-8); }
PROP(lanczos_float, "the size changes") { lanczos<float>(s, [](Src& t) { return static_cast<float>(t.dyadic(8, 8)); }, 2e-3); }
PROP(lanczos_byte, "the size changes") { lanczos<std::uint8_t>(s, gb, 1e-6); }
PROP(lanczos_int, "the size changes") { lanczos<int>(s, [](Src& t) { return static_cast<int>(t.sint(1000)); }, 1e-6); }
template<class P> static void lanczos_colour(Src& s)
{
    Sz z = sz2(s, 6), n = newsz(s, z); auto a = cimg<P>(s, z); s.desc << show(a, 3) << " to " << str(n); s.nontrivial(n != z && prod(z) > 1); int k = static_cast<int>(s.in(1, 3));
    auto r = s.flip() ? lanczos_resample(a, n[0], n[1], k) : lanczos_resample(std::execution::par, a, n[0], n[1], k); REQ(r.getSize() == n, "size");
    for (std::size_t c = 0; c < 3; ++c) {
        std::vector<double> d; for (auto& q : data(a)) d.push_back(static_cast<double>(q.channels[c]));
        for (std::size_t i = 0; i < prod(n); ++i) judge<std::remove_cvref_t<decltype(r.get(0).channels[0])>>(static_cast<double>(r.get(i).channels[c]), lan(d, z, mid(i % n[0], z[0], n[0]), mid(i / n[0], z[1], n[1]), k), 1e-6, "Lanczos channel " + std::to_string(c) + " of pixel " + std::to_string(i));
    }
}
PROP(lanczos_word, "the size changes") { lanczos<std::uint16_t>(s, [](Src& t) { return static_cast<std::uint16_t>(t.flip() ? t.draw(65535) : 65535 - t.draw(300)); }, 1e-6); }
PROP(lanczos_short, "the size changes") { lanczos<std::int16_t>(s, [](Src& t) { return static_cast<std::int16_t>(t.flip() ? t.sint(32767) : t.flip() ? 32767 - static_cast<int>(t.draw(90)) : -32768 + static_cast<int>(t.draw(90))); }, 1e-6); }
PROP(lanczos_rgb, "the size changes") { lanczos_colour<RGB>(s); }
PROP(lanczos_rgb_double, "the size changes") { lanczos_colour<RGB_DOUBLE>(s); }
PROP(bicubic_complex, "the size changes")
{   // the real and the imaginary part are resampled alike
    Sz z = sz2(s, 6), n = newsz(s, z); auto re = dimg(s, z), im = dimg(s, z); auto a = generate_complex_image(re, im); s.desc << str(z) << " to " << str(n); s.nontrivial(n != z && prod(z) > 1);
    auto r = copyResizeBicubic<double>(a, n[0], n[1]); auto x = copyResizeBicubic<double>(re, n[0], n[1]), y = copyResizeBicubic<double>(im, n[0], n[1]); REQ(r.getSize() == n, "size");
    for (std::size_t i = 0; i < prod(n); ++i) REQ(close(r.get(i).real(), x.get(i), 1e-9, 1e-9) && close(r.get(i).imag(), y.get(i), 1e-9, 1e-9), "pixel " << i << " is " << r.get(i) << " expected (" << x.get(i) << "," << y.get(i) << ")");
    req_eq(default_lanczos_resample<double>{}(re, n[0], n[1], 2), lanczos_resample(re, n[0], n[1], 2), "the resampling object"); req_eq(default_lanczos_resample<double>{}(re, n[0], n[1]), lanczos_resample(re, n[0], n[1]), "the resampling object with its default");
}
PROP(lanczos_complex, "the size changes")
{
    Sz z = sz2(s, 6), n = newsz(s, z); auto re = dimg(s, z), im = dimg(s, z); auto a = generate_complex_image(re, im); s.desc << str(z) << " to " << str(n); s.nontrivial(n != z && prod(z) > 1);
    auto r = s.flip() ? lanczos_resample(a, n[0], n[1]) : lanczos_resample(std::execution::par, a, n[0], n[1]);
    for (std::size_t i = 0; i < prod(n); ++i) { double fx = mid(i % n[0], z[0], n[0]), fy = mid(i / n[0], z[1], n[1]); judge<double>(r.get(i).real(), lan(data(re), z, fx, fy, 3), 1e-8, "real part"); judge<double>(r.get(i).imag(), lan(data(im), z, fx, fy, 3), 1e-8, "imaginary part"); }
}
PROP(lanczos_kernel_shape, "inside the support")
{
    int a = static_cast<int>(s.in(1, 6)); double x = s.flip() ? s.real(-7, 7) : static_cast<double>(s.sint(14)) / 2; s.desc << "x=" << x << " a=" << a; s.nontrivial(std::fabs(x) < a);
    double w = lk(x, a); REQ(close(lanczos_kernel(x, a), w, 1e-9, 1e-12), "kernel(" << x << "," << a << ") = " << lanczos_kernel(x, a) << " expected " << w);
    REQ(close(lanczos_kernel(-x, a), lanczos_kernel(x, a), 1e-12, 1e-15), "the kernel is even");
    REQ(std::fabs(static_cast<double>(lanczos_kernel(static_cast<float>(x), a)) - w) < 1e-4, "float kernel");
}
PROP(wrong_dimension, "the image is not two-dimensional")
{
    Sz z = dims(s, 1, 4, 1, 3); if (z.size() == 2) z.push_back(1); auto a = dimg(s, z); s.desc << str(z); s.nontrivial();
    REQ(throws<std::runtime_error>([&] { (void)lanczos_resample(a, 3, 3); }) && throws<std::runtime_error>([&] { (void)lanczos_resample(std::execution::seq, a, 3, 3); }), "Lanczos of " << str(z));
    REQ(throws<std::runtime_error>([&] { (void)copyResizeBicubic(a, 3, 3); }), "bicubic of " << str(z));
}
