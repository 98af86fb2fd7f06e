// C02 (part 2): mathematical functions on multi-channel pixels act on every channel independently
#include "img.h"
using namespace g;
using TinyDIP::MultiChannel;

// name, generator range lo, hi
#define FNS(X) X(sqrt, 0.01, 50) X(cbrt, -50, 50) X(sin, -6, 6) X(cos, -6, 6) X(tan, -1.5, 1.5) X(asin, -1, 1) X(acos, -1, 1) X(atan, -9, 9) \
    X(sinh, -5, 5) X(cosh, -5, 5) X(tanh, -5, 5) X(asinh, -9, 9) X(acosh, 1, 9) X(atanh, -0.99, 0.99) X(erf, -3, 3) X(erfc, -3, 3) X(lgamma, 0.1, 9) X(tgamma, 0.1, 9) \
    X(ceil, -9, 9) X(floor, -9, 9) X(trunc, -9, 9) X(nearbyint, -9, 9) X(rint, -9, 9) X(ilogb, 0.01, 99) X(logb, 0.01, 99) X(exp, -9, 9) X(exp2, -9, 9) X(expm1, -9, 9) \
    X(log, 0.01, 99) X(log10, 0.01, 99) X(log1p, -0.9, 99) X(log2, 0.01, 99)
#define CLS(X) X(fpclassify) X(isfinite) X(isinf) X(isnan) X(isnormal) X(signbit)

template<std::size_t N, class F> MultiChannel<double, N> mc(Src& s, F f) { MultiChannel<double, N> m; for (auto& c : m.channels) c = f(s); return m; }
template<class R, class M, class F> void same_ch(const R& got, const M& in, F f, const char* what)
{
    static_assert(std::tuple_size_v<decltype(got.channels)> == std::tuple_size_v<decltype(in.channels)>);
    for (std::size_t i = 0; i < in.channels.size(); ++i) {
        double w = static_cast<double>(f(in.channels[i])), v = static_cast<double>(got.channels[i]);
        REQ(close(v, w, 1e-12, 1e-12), what << " of " << in.channels[i] << " (channel " << i << " of " << in.channels.size() << ") is " << v << " expected " << w);
    }
}
template<std::size_t N> void fns(Src& s)
{
    s.desc << N << " channels"; s.nontrivial(N > 1);
#define X(n, lo, hi) { auto m = mc<N>(s, [](Src& t) { return t.real(lo, hi); }); auto f = [](double v) { return std::n(v); }; \
        same_ch(TinyDIP::n(m), m, f, #n); same_ch(TinyDIP::n(std::execution::seq, m), m, f, #n "(seq)"); \
        REQ(close(static_cast<double>(TinyDIP::n(m.channels[0])), static_cast<double>(f(m.channels[0]))), #n " of a scalar"); }
    FNS(X)
#undef X
    auto special = [](Src& t) { return t.pick({0.0, -0.0, 1.5, -2.5, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 5e-324, 1e308}); };
#define X(n) { auto m = mc<N>(s, special); auto f = [](double v) { return std::n(v); }; same_ch(TinyDIP::n(m), m, f, #n); same_ch(TinyDIP::n(std::execution::seq, m), m, f, #n "(seq)"); }
    CLS(X)
#undef X
    auto t = mc<N>(s, [](Src& q) { double v = q.real(-1.4, 1.4); return std::fabs(v) < 0.01 ? 0.3 : v; });
    same_ch(TinyDIP::cot(t), t, [](double v) { return 1 / std::tan(v); }, "cot"); same_ch(TinyDIP::sec(t), t, [](double v) { return 1 / std::cos(v); }, "sec"); same_ch(TinyDIP::csc(t), t, [](double v) { return 1 / std::sin(v); }, "csc");
    same_ch(TinyDIP::cot(std::execution::seq, t), t, [](double v) { return 1 / std::tan(v); }, "cot(seq)"); same_ch(TinyDIP::sec(std::execution::seq, t), t, [](double v) { return 1 / std::cos(v); }, "sec(seq)"); same_ch(TinyDIP::csc(std::execution::seq, t), t, [](double v) { return 1 / std::sin(v); }, "csc(seq)");
    same_ch(TinyDIP::abs(t), t, [](double v) { return std::fabs(v); }, "abs"); same_ch(TinyDIP::abs(std::execution::seq, t), t, [](double v) { return std::fabs(v); }, "abs(seq)");
    double e = static_cast<double>(s.in(0, 4)); same_ch(TinyDIP::pow(t, e), t, [e](double v) { return std::pow(v, e); }, "pow"); same_ch(TinyDIP::pow(std::execution::seq, t, e), t, [e](double v) { return std::pow(v, e); }, "pow(seq)");
    auto cx = TinyDIP::to_complex(t); for (std::size_t i = 0; i < N; ++i) REQ(cx.channels[i] == std::complex<double>(t.channels[i], 0), "to_complex channel " << i);
    auto am = TinyDIP::apply_multichannel(t, [](double v, double k) { return v * k + 1; }, 3.0); same_ch(am, t, [](double v) { return v * 3 + 1; }, "apply_multichannel");
    auto ap = TinyDIP::apply_multichannel(std::execution::seq, t, [](double v, double k) { return v * k + 1; }, 3.0); same_ch(ap, t, [](double v) { return v * 3 + 1; }, "apply_multichannel(seq)");
    unsigned ui = static_cast<unsigned>(s.draw(300)); REQ(TinyDIP::generic_abs(ui) == ui, "abs of an unsigned value is the value");
    std::array<int, N> arr; for (auto& v : arr) v = static_cast<int>(s.sint(50)); int last = static_cast<int>(s.sint(50)); auto ar2 = TinyDIP::append(arr, last);
    for (std::size_t i = 0; i < N; ++i) REQ(ar2[i] == arr[i], "append keeps the elements"); REQ(ar2[N] == last, "append adds at the end");
}
PROP(one_channel, "more than one channel (never: kept as the degenerate case)") { fns<1>(s); }
PROP(three_channels, "three channels") { fns<3>(s); }
PROP(four_channels, "four channels") { fns<4>(s); }

// whole images of multi-channel, complex and colour pixels
template<std::size_t N> void image_fns(Src& s)
{
    typedef MultiChannel<double, N> M; Sz z = dims(s, 2, 2, 1, 6, true); s.desc << N << " channels " << str(z); s.nontrivial(prod(z) > 1);
    TinyDIP::Image<M> a(z); for (auto& p : a.getImageData()) p = mc<N>(s, [](Src& q) { double v = q.real(-0.99, 0.99); return std::fabs(v) < 0.01 ? 0.3 : v; });
    auto each = [&](const auto& r, auto f, const char* what) { REQ(r.getSize() == z, what << " size " << str(r.getSize())); for (std::size_t i = 0; i < prod(z); ++i) same_ch(r.getImageData()[i], a.getImageData()[i], f, what); };
    each(TinyDIP::sin(a), [](double v) { return std::sin(v); }, "sin of an image"); each(TinyDIP::cos(a), [](double v) { return std::cos(v); }, "cos of an image"); each(TinyDIP::tan(a), [](double v) { return std::tan(v); }, "tan of an image");
    each(TinyDIP::asin(a), [](double v) { return std::asin(v); }, "asin of an image"); each(TinyDIP::acos(a), [](double v) { return std::acos(v); }, "acos of an image");
    each(TinyDIP::cot(a), [](double v) { return 1 / std::tan(v); }, "cot of an image"); each(TinyDIP::sec(a), [](double v) { return 1 / std::cos(v); }, "sec of an image"); each(TinyDIP::csc(a), [](double v) { return 1 / std::sin(v); }, "csc of an image");
    auto c = TinyDIP::to_complex(a); REQ(c.getSize() == z, "to_complex size"); for (std::size_t i = 0; i < prod(z); ++i) for (std::size_t k = 0; k < N; ++k) REQ(c.getImageData()[i].channels[k] == std::complex<double>(a.getImageData()[i].channels[k], 0), "to_complex of pixel " << i << " channel " << k);
}
PROP(multichannel_images, "more than one pixel") { if (s.flip()) image_fns<3>(s); else image_fns<2>(s); }
PROP(complex_images, "more than one pixel")
{
    typedef std::complex<double> Z; Sz z = dims(s, 1, 3, 1, 5, true); s.desc << str(z); s.nontrivial(prod(z) > 1); TinyDIP::Image<Z> a(z); for (auto& v : a.getImageData()) { v = Z(s.real(0.1, 1.4), s.real(-2, 2)); }
    auto each = [&](const auto& r, auto f, const char* what) { REQ(r.getSize() == z, what << " size"); for (std::size_t i = 0; i < prod(z); ++i) { Z g = r.getImageData()[i], w = f(a.getImageData()[i]); REQ(std::abs(g - w) <= 1e-12 * (1 + std::abs(w)), what << " of " << a.getImageData()[i] << " is " << g << " expected " << w); } };
    each(TinyDIP::cot(a), [](Z v) { return std::cos(v) / std::sin(v); }, "cot"); each(TinyDIP::sec(a), [](Z v) { return 1.0 / std::cos(v); }, "sec"); each(TinyDIP::csc(a), [](Z v) { return 1.0 / std::sin(v); }, "csc"); each(TinyDIP::sin(a), [](Z v) { return std::sin(v); }, "sin"); each(TinyDIP::cos(a), [](Z v) { return std::cos(v); }, "cos");
}
PROP(colour_to_double, "more than one pixel")
{
    Sz z = dims(s, 2, 2, 1, 6, true); s.desc << str(z); s.nontrivial(prod(z) > 1); auto a = rgbimg(s, z);
    auto b = TinyDIP::to_double(a), c = TinyDIP::to_double(std::execution::par, a); REQ(b.getSize() == z && c.getSize() == z, "size");
    for (std::size_t i = 0; i < prod(z); ++i) for (int k = 0; k < 3; ++k) { double w = a.getImageData()[i].channels[k]; REQ(b.getImageData()[i].channels[k] == w && c.getImageData()[i].channels[k] == w, "to_double of pixel " << i << " channel " << k << ": " << b.getImageData()[i].channels[k] << " and " << c.getImageData()[i].channels[k] << " expected " << w); }
}
