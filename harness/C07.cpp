// C07: discrete Fourier and cosine transforms
// vp-flags: -O2
#include "img.h"
#include <complex>
using namespace g;
using namespace TinyDIP;
typedef std::complex<long double> CL;
typedef std::complex<double> C;
static const double PI = 3.14159265358979323846;

static double amp(const std::vector<double>& v) { double m = 1; for (double d : v) m = std::max(m, std::fabs(d)); return m * static_cast<double>(v.size()); }
// separable 1-D DCT matrix: forward (2/N) a_k cos, inverse its transpose times N/2
static std::vector<double> dct1(const std::vector<double>& x, bool inv)
{
    std::size_t n = x.size(); std::vector<double> o(n);
    for (std::size_t k = 0; k < n; ++k) { double t = 0;
        for (std::size_t m = 0; m < n; ++m) {
            std::size_t f = inv ? m : k, p = inv ? k : m;
            // reduce the angle exactly: cos(pi (2p+1) f / 2n)
            std::size_t q = ((2 * p + 1) * f) % (4 * n);
            t += x[m] * std::cos(PI * static_cast<double>(q) / (2.0 * static_cast<double>(n))) * (f == 0 ? std::sqrt(0.5) : 1.0);
        }
        o[k] = inv ? t : t * 2 / static_cast<double>(n); }
    return o;
}
static std::vector<double> dctn(std::vector<double> v, const Sz& z, bool inv)
{
    std::size_t st = 1;
    for (std::size_t ax = 0; ax < z.size(); ++ax) {
        for (std::size_t i = 0; i < v.size(); ++i) if ((i / st) % z[ax] == 0) {
            std::vector<double> l(z[ax]); for (std::size_t k = 0; k < z[ax]; ++k) l[k] = v[i + k * st];
            l = dct1(l, inv); for (std::size_t k = 0; k < z[ax]; ++k) v[i + k * st] = l[k];
        }
        st *= z[ax];
    }
    return v;
}
static void near(const std::vector<double>& got, const std::vector<double>& want, double tol, const char* w)
{
    REQ(got.size() == want.size(), w << ": count");
    for (std::size_t i = 0; i < want.size(); ++i) REQ(std::fabs(got[i] - want[i]) <= tol, w << ": element " << i << " is " << got[i] << " expected " << want[i]);
}
static Sz z3(const Sz& z) { return Sz{z[0], z[1], 1}; }

PROP(dct2_values, "more than one row and column")
{
    Sz z = wide2(s, 10, 10); auto a = dimg(s, z); s.desc << show(a, 6); s.nontrivial(z[0] > 1 && z[1] > 1);
    double tol = 1e-10 * amp(data(a));
    auto f = dct2(a); REQ(f.getSize() == z, "size"); near(data(f), dctn(data(a), z3(z), false), tol, "forward transform");
    auto v = idct2(a); REQ(v.getSize() == z, "size"); near(data(v), dctn(data(a), z3(z), true), tol * 4, "inverse transform");
    near(data(idct2(f)), data(a), tol, "inverse of the forward transform"); near(data(dct2(v)), data(a), tol * 4, "forward of the inverse transform");
    auto b = bimg(s, z); auto fb = dct2(b); std::vector<double> bd(data(b).begin(), data(b).end());
    near(data(fb), dctn(bd, z3(z), false), 1e-10 * amp(bd), "forward transform of bytes");
    std::vector<Image<double>> vec{a}; near(data(dct3_one_plane(std::execution::par, vec, 0)), data(f), tol, "policy form");
}
template<class P> static void colour(Src& s)
{
    Sz z{s.sz(1, 6), s.sz(1, 6)}; auto a = gen(s, z, [](Src& t) { P p; for (auto& c : p.channels) c = static_cast<std::remove_cvref_t<decltype(c)>>(gb(t)); return p; });
    s.desc << show(a, 3); s.nontrivial(z[0] > 1 && z[1] > 1);
    auto f = dct2(a); auto b = idct2(f); auto v = idct2(a);
    REQ(f.getSize() == z && b.getSize() == z && v.getSize() == z, "size");
    for (std::size_t c = 0; c < std::size(a.get(0).channels); ++c) {
        std::vector<double> pl, gf, gb_, gv; for (std::size_t i = 0; i < prod(z); ++i) { pl.push_back(static_cast<double>(a.get(i).channels[c])); gf.push_back(f.get(i).channels[c]); gb_.push_back(b.get(i).channels[c]); gv.push_back(v.get(i).channels[c]); }
        near(gf, dctn(pl, z3(z), false), 1e-10 * amp(pl), "channel transform"); near(gb_, pl, 1e-9 * amp(pl), "channel round trip"); near(gv, dctn(pl, z3(z), true), 1e-9 * amp(pl), "channel inverse");
    }
}
PROP(dct2_rgb, "more than one row and column") { colour<RGB>(s); }
PROP(dct2_rgb_double, "more than one row and column") { colour<RGB_DOUBLE>(s); }
PROP(dct2_hsv, "more than one row and column") { colour<HSV>(s); }

PROP(dct2_wrong_dimension, "the image is not two-dimensional")
{
    Sz z = dims(s, 1, 4, 1, 3); if (z.size() == 2) z.push_back(1); auto a = dimg(s, z); s.desc << str(z); s.nontrivial();
    REQ(throws<std::runtime_error>([&] { (void)dct2(a); }) && throws<std::runtime_error>([&] { (void)idct2(a); }), "cosine transform of " << str(z));
}
PROP(dct3_values, "two or more planes of more than one pixel")
{
    Sz z{s.sz(1, 6), s.sz(1, 6), s.sz(1, 6)}; std::vector<Image<double>> in; std::vector<double> flat_;
    for (std::size_t k = 0; k < z[2]; ++k) { in.push_back(dimg(s, Sz{z[0], z[1]})); flat_.insert(flat_.end(), data(in[k]).begin(), data(in[k]).end()); }
    s.desc << str(z) << " " << show(in[0], 4); s.nontrivial(z[2] > 1 && z[0] * z[1] > 1);
    double tol = 1e-10 * amp(flat_);
    auto cat = [](const std::vector<Image<double>>& v) { std::vector<double> o; for (auto& i : v) o.insert(o.end(), data(i).begin(), data(i).end()); return o; };
    auto f = dct3(in); REQ(f.size() == z[2], "planes"); near(cat(f), dctn(flat_, z, false), tol, "three-dimensional transform");
    std::size_t pl = s.draw(z[2] - 1);
    near(data(dct3_one_plane(in, pl)), data(f[pl]), tol, "one plane"); near(data(dct3_one_plane(std::execution::par, in, pl)), data(f[pl]), tol, "one plane (par)"); near(data(dct3_one_plane(std::execution::seq, in, pl)), data(f[pl]), tol, "one plane (seq)");
    near(data(idct3_one_plane(f, pl)), data(in[pl]), tol * 4, "inverse of one plane");
    auto b = idct3(f); REQ(b.size() == z[2], "planes"); near(cat(b), flat_, tol * 4, "inverse of the three-dimensional transform");
    near(cat(idct3(in)), dctn(flat_, z, true), tol * 8, "three-dimensional inverse");
}
PROP(dct_float, "more than one pixel")
{
    Sz z{s.sz(1, 5), s.sz(1, 5), s.sz(1, 4)}; std::vector<Image<float>> in; std::vector<double> fl;
    for (std::size_t k = 0; k < z[2]; ++k) { in.push_back(gen(s, Sz{z[0], z[1]}, [](Src& t) { return static_cast<float>(t.dyadic(8, 4)); })); for (float v : data(in[k])) fl.push_back(v); }
    s.desc << str(z); s.nontrivial(prod(z) > 1); double tol = 2e-5 * amp(fl);
    auto w = dctn(fl, z, false); auto f = dct3(in);
    for (std::size_t k = 0; k < z[2]; ++k) for (std::size_t i = 0; i < z[0] * z[1]; ++i) REQ(std::fabs(f[k].get(i) - w[k * z[0] * z[1] + i]) <= tol, "float transform plane " << k << " element " << i << " is " << f[k].get(i) << " expected " << w[k * z[0] * z[1] + i]);
}
PROP(dct_complex, "more than one pixel")
{
    // the cosine transform is linear, so real and imaginary parts transform separately
    Sz z{s.sz(1, 5), s.sz(1, 5)}; auto re = dimg(s, z), im = dimg(s, z); auto c = generate_complex_image(re, im); s.desc << show(re, 4); s.nontrivial(prod(z) > 1);
    std::vector<Image<C>> v{c}; auto f = dct3_one_plane(v, 0); auto b = idct3_one_plane(std::vector<Image<C>>{f}, 0);
    auto wr = dctn(data(re), z3(z), false), wi = dctn(data(im), z3(z), false); double tol = 1e-9 * (amp(data(re)) + amp(data(im)));
    for (std::size_t i = 0; i < prod(z); ++i) {
        REQ(std::fabs(f.get(i).real() - wr[i]) <= tol && std::fabs(f.get(i).imag() - wi[i]) <= tol, "complex transform " << i);
        REQ(std::abs(b.get(i) - c.get(i)) <= tol * 4, "complex round trip " << i);
    }
}
static std::vector<C> dft1(const std::vector<C>& x, int sign)
{
    std::size_t n = x.size(); std::vector<C> o(n);
    for (std::size_t k = 0; k < n; ++k) { C t = 0; for (std::size_t m = 0; m < n; ++m) { double a = 2 * PI * static_cast<double>((k * m) % n) / static_cast<double>(n); t += x[m] * C(std::cos(a), sign * std::sin(a)); } o[k] = t / std::sqrt(static_cast<double>(n)); }
    return o;
}
static std::vector<C> dft(std::vector<C> v, const Sz& z, int sign)
{
    for (std::size_t y = 0; y < z[1]; ++y) { std::vector<C> l(v.begin() + static_cast<long>(y * z[0]), v.begin() + static_cast<long>((y + 1) * z[0])); l = dft1(l, sign); std::copy(l.begin(), l.end(), v.begin() + static_cast<long>(y * z[0])); }
    for (std::size_t x = 0; x < z[0]; ++x) { std::vector<C> l(z[1]); for (std::size_t y = 0; y < z[1]; ++y) l[y] = v[y * z[0] + x]; l = dft1(l, sign); for (std::size_t y = 0; y < z[1]; ++y) v[y * z[0] + x] = l[y]; }
    return v;
}
template<class I> static void cnear(const I& got, const std::vector<C>& want, double tol, const char* w)
{
    REQ(got.getImageData().size() == want.size(), w << ": count");
    for (std::size_t i = 0; i < want.size(); ++i) { auto q = got.getImageData()[i]; REQ(std::fabs(static_cast<double>(q.real()) - want[i].real()) <= tol && std::fabs(static_cast<double>(q.imag()) - want[i].imag()) <= tol, w << ": element " << i << " is " << q << " expected " << want[i]); }
}
PROP(dft2_values, "more than one row and column")
{
    Sz z = wide2(s, 8, 8); auto a = dimg(s, z); s.desc << show(a, 6); s.nontrivial(z[0] > 1 && z[1] > 1);
    double tol = 1e-10 * amp(data(a)); std::vector<C> ac(data(a).begin(), data(a).end());
    auto f = dft2(a); REQ(f.getSize() == z, "size"); cnear(f, dft(ac, z, -1), tol, "Fourier transform");
    auto b = idft2(f); REQ(b.getSize() == z, "size"); cnear(b, ac, tol, "inverse of the Fourier transform");
    long double e1 = 0, e2 = 0; for (double d : data(a)) e1 += d * d; for (auto& c : data(f)) e2 += std::norm(c);
    REQ(std::fabs(static_cast<double>(e1 - e2)) <= 1e-9 * static_cast<double>(e1 + 1), "energy " << static_cast<double>(e1) << " became " << static_cast<double>(e2));
    auto bi = bimg(s, z); std::vector<C> bc; for (auto v : data(bi)) bc.push_back(static_cast<double>(v)); cnear(dft2(bi), dft(bc, z, -1), 1e-8 * static_cast<double>(bc.size()), "Fourier transform of bytes");
}
PROP(idft2_values, "more than one row and column")
{
    Sz z = wide2(s, 8, 8); auto re = dimg(s, z), im = dimg(s, z); s.desc << show(re, 6); s.nontrivial(z[0] > 1 && z[1] > 1);
    std::vector<CL> v; std::vector<C> w; for (std::size_t i = 0; i < prod(z); ++i) { v.push_back(CL(re.get(i), im.get(i))); w.push_back(C(re.get(i), im.get(i))); }
    cnear(idft2(Image<CL>(v, z)), dft(w, z, 1), 1e-10 * (amp(data(re)) + amp(data(im))), "inverse Fourier transform");
}
