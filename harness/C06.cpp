// C06: two- and N-dimensional convolution
#include "img.h"
using namespace g;
using namespace TinyDIP;

template<class O, class A, class B> static Image<O> full(const Image<A>& a, const Image<B>& b)
{
    Sz za = a.getSize(), zb = b.getSize(), zo = za;
    for (std::size_t k = 0; k < zo.size(); ++k) zo[k] = za[k] + zb[k] - 1;
    std::vector<O> out(prod(zo), O{});
    for (std::size_t i = 0; i < prod(za); ++i) { Sz ci = coord(i, za);
        for (std::size_t j = 0; j < prod(zb); ++j) { Sz cj = coord(j, zb); for (std::size_t k = 0; k < cj.size(); ++k) cj[k] += ci[k];
            auto& o = out[flat(cj, zo)]; o = static_cast<O>(o + static_cast<O>(a.getImageData()[i]) * static_cast<O>(b.getImageData()[j])); } }
    return Image<O>(out, zo);
}
// the block of size z centred at half the full size (both halves rounded down)
template<class O> static Image<O> centre(const Image<O>& f, const Sz& z)
{
    Sz zf = f.getSize(); std::vector<O> out(prod(z));
    for (std::size_t i = 0; i < out.size(); ++i) { Sz c = coord(i, z); for (std::size_t k = 0; k < c.size(); ++k) c[k] += zf[k] / 2 - z[k] / 2; out[i] = f.getImageData()[flat(c, zf)]; }
    return Image<O>(out, z);
}
template<class A, class B> static void check2(const Image<A>& a, const Image<B>& b, int pol)
{
    using O = std::common_type_t<A, B>;
    auto f = full<O>(a, b); auto c = centre(f, a.getSize());
    auto run = [&](bool same) { switch (pol) { case 0: return conv2(a, b, same); case 1: return conv2(std::execution::seq, a, b, same); case 2: return conv2(std::execution::par, a, b, same); default: return conv2(std::execution::par_unseq, a, b, same); } };
    req_eq(run(false), f, "full convolution"); req_eq(run(true), c, "same-size convolution");
    req_eq(conv2(a, b), f, "convolution without a size flag is the full one");
}
static Sz ksz(Src& s) { return s.chance(1, 4) ? Sz{s.sz(1, 9), 1} : s.chance(1, 4) ? Sz{1, s.sz(1, 9)} : Sz{s.sz(1, 9), s.sz(1, 9)}; }
static Sz isz(Src& s) { return wide2(s, 14, 14); }
#define R2 "image and kernel both larger than one pixel"
PROPW(conv2_double, 2, R2) { auto a = dimg(s, isz(s)), b = dimg(s, ksz(s)); s.desc << show(a, 4) << " * " << show(b, 9); s.nontrivial(a.count() > 1 && b.count() > 1); check2(a, b, static_cast<int>(s.draw(3))); }
PROP(conv2_int, R2) { auto a = iimg(s, isz(s)), b = iimg(s, ksz(s)); s.desc << show(a, 4) << " * " << show(b, 9); s.nontrivial(a.count() > 1 && b.count() > 1); check2(a, b, static_cast<int>(s.draw(3))); }
PROP(conv2_byte_by_double, R2) { auto a = bimg(s, isz(s)); auto b = dimg(s, ksz(s)); s.desc << show(a, 4) << " * " << show(b, 9); s.nontrivial(a.count() > 1 && b.count() > 1); check2(a, b, static_cast<int>(s.draw(3))); check2(b, a, 0); }
PROP(conv2_word_by_double, R2) { auto a = gen(s, isz(s), [](Src& t) { return static_cast<std::uint16_t>(t.draw(65535)); }); auto b = dimg(s, ksz(s)); s.desc << show(a, 4) << " * " << show(b, 9); s.nontrivial(a.count() > 1 && b.count() > 1); check2(a, b, static_cast<int>(s.draw(3))); check2(b, a, 0); }
PROP(conv2_long, R2) { auto a = gen(s, isz(s), [](Src& t) { return static_cast<std::int64_t>(t.sint(1L << 40)); }); auto b = gen(s, ksz(s), [](Src& t) { return static_cast<std::int64_t>(t.sint(1000)); }); s.desc << show(a, 4) << " * " << show(b, 9); s.nontrivial(a.count() > 1 && b.count() > 1); check2(a, b, static_cast<int>(s.draw(3))); }
PROP(conv2_float_by_int, R2)
{
    auto a = gen(s, isz(s), [](Src& t) { return static_cast<float>(t.dyadic(8, 4)); }); auto b = iimg(s, ksz(s), 20);
    s.desc << show(a, 4) << " * " << show(b, 9); s.nontrivial(a.count() > 1 && b.count() > 1); check2(a, b, static_cast<int>(s.draw(3)));
}
template<class P, int N = 3> static void colour(Src& s)
{
    Sz z = isz(s); auto a = gen(s, z, [](Src& t) { P p; for (auto& c : p.channels) { if constexpr (std::same_as<std::remove_cvref_t<decltype(c)>, std::uint8_t>) c = gb(t); else c = gd(t); } return p; });
    auto k = dimg(s, ksz(s)); s.desc << show(a, 2) << " * " << show(k, 9); s.nontrivial(a.count() > 1 && k.count() > 1);
    bool same = s.flip(); auto got = conv2(a, k, same);
    for (int c = 0; c < N; ++c) {
        std::vector<double> pl; for (auto& q : a.getImageData()) pl.push_back(static_cast<double>(q.channels[c]));
        auto f = full<double>(Image<double>(pl, z), k); if (same) f = centre(f, z);
        REQ(got.getSize() == f.getSize(), "size " << str(got.getSize()) << " expected " << str(f.getSize()));
        for (std::size_t i = 0; i < f.count(); ++i) REQ(got.getImageData()[i].channels[c] == f.getImageData()[i], "channel " << c << " at " << str(coord(i, f.getSize())) << " is " << got.getImageData()[i].channels[c] << " expected " << f.getImageData()[i]);
    }
}
PROP(conv2_rgb, R2) { colour<RGB>(s); }
PROP(conv2_rgb_double, R2) { colour<RGB_DOUBLE>(s); }
PROP(conv2_hsv, R2) { colour<HSV>(s); }

template<class T, class F> static void nd(Src& s, F f)
{
    std::size_t d = s.uz(1, 4); std::size_t mx = d == 1 ? 20 : d == 2 ? 8 : d == 3 ? 5 : 3;
    Sz z = dims(s, d, d, 1, mx), k; for (std::size_t i = 0; i < d; ++i) k.push_back(s.sz(1, mx));
    auto a = gen(s, z, f), b = gen(s, k, f); s.desc << str(z) << " * " << str(k); s.nontrivial(a.count() > 1 && b.count() > 1);
    auto w = full<T>(a, b); auto c = centre(w, z); int pol = static_cast<int>(s.draw(2));
    auto run = [&](bool same) { switch (pol) { case 0: return convolution(a, b, same); case 1: return convolution(std::execution::seq, a, b, same); default: return convolution(std::execution::par, a, b, same); } };
    req_eq(run(false), w, "N-D convolution"); req_eq(run(true), c, "same-size N-D convolution"); req_eq(convolution(a, b), w, "default form");
}
#define RN "image and kernel both larger than one pixel"
PROP(nd_double, RN) { nd<double>(s, gd); }
PROP(nd_int, RN) { nd<int>(s, [](Src& t) { return static_cast<int>(t.sint(50)); }); }
PROP(nd_complex, RN) { nd<std::complex<double>>(s, [](Src& t) { return std::complex<double>(static_cast<double>(t.sint(30)), static_cast<double>(t.sint(30))); }); }
PROP(conv2_complex, R2)
{
    auto f = [](Src& t) { return std::complex<double>(static_cast<double>(t.sint(30)), static_cast<double>(t.sint(30))); };
    auto a = gen(s, isz(s), f), b = gen(s, ksz(s), f); s.desc << show(a, 4) << " * " << show(b, 9); s.nontrivial(a.count() > 1 && b.count() > 1); check2(a, b, static_cast<int>(s.draw(3)));
}
