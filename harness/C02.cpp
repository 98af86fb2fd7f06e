// C02: elementwise arithmetic and per-pixel mathematics of images
#include "img.h"
using namespace g;
using namespace TinyDIP;

template<class R, class A, class F> void chk1(const Image<R>& got, const Image<A>& a, F f, const char* what)
{
    REQ(got.getSize() == a.getSize(), what << ": size " << str(got.getSize()) << " for input " << str(a.getSize()));
    REQ(got.getImageData().size() == a.getImageData().size(), what << ": length");
    for (std::size_t i = 0; i < a.getImageData().size(); ++i) {
        R want = f(a.getImageData()[i]);
        REQ(closeT(static_cast<R>(got.getImageData()[i]), want, 1e-12, 1e-12), what << ": pixel " << i << " of input " << ps(a.getImageData()[i]) << " is " << ps(got.getImageData()[i]) << " expected " << ps(want));
    }
}
template<class R, class A, class B, class F> void chk2(const Image<R>& got, const Image<A>& a, const Image<B>& b, F f, const char* what)
{
    REQ(got.getSize() == a.getSize(), what << ": size " << str(got.getSize()));
    REQ(got.getImageData().size() == a.getImageData().size(), what << ": length");
    for (std::size_t i = 0; i < a.getImageData().size(); ++i) {
        R want = f(a.getImageData()[i], b.getImageData()[i]);
        REQ(closeT(static_cast<R>(got.getImageData()[i]), want, 1e-12, 1e-12), what << ": pixel " << i << " of inputs " << ps(a.getImageData()[i]) << ", " << ps(b.getImageData()[i]) << " is " << ps(got.getImageData()[i]) << " expected " << ps(want));
    }
}
static double nz(Src& s) { double v = gd(s); return v == 0 ? 1.5 : v; }

// values at the edges of the type: the result is the machine's own, infinities, signed zeros and NaN included
PROP(special_values, "a divisor of zero, an infinity or a NaN")
{
    constexpr double inf = std::numeric_limits<double>::infinity(), mx = std::numeric_limits<double>::max(), mn = std::numeric_limits<double>::denorm_min(); bool any = false; auto sp = [&](Src& t) { switch (t.draw(9)) { case 1: any = true; return 0.0; case 2: any = true; return -0.0; case 3: any = true; return inf; case 4: any = true; return -inf; case 5: any = true; return std::numeric_limits<double>::quiet_NaN(); case 6: return mx; case 7: return mn; case 8: return -1.0; default: return gd(t); } };
    Sz z = dims(s, 1, 2, 1, 6); auto a = gen(s, z, sp), b = gen(s, z, sp); double k = sp(s); s.desc << show(a, 6) << " , " << show(b, 6) << " by " << k; s.nontrivial(any);
    auto eq = [&](const Image<double>& got, auto f, const char* what) { REQ(got.getSize() == z, what << ": size"); for (std::size_t i = 0; i < prod(z); ++i) { double w = f(a.get(i), b.get(i)), g = got.get(i); REQ((std::isnan(w) && std::isnan(g)) || w == g, what << ": pixel " << i << " of inputs " << a.get(i) << ", " << b.get(i) << " is " << g << " expected " << w); } };
    auto pl = [](double x, double y) { return x + y; }; auto mi = [](double x, double y) { return x - y; }; auto mu = [](double x, double y) { return x * y; }; auto dv = [](double x, double y) { return x / y; };
    auto t = a; t += b; eq(t, pl, "operator+="); t = a; t -= b; eq(t, mi, "operator-="); t = a; t *= b; eq(t, mu, "operator*="); t = a; t /= b; eq(t, dv, "operator/="); eq(a + b, pl, "operator+"); eq(a - b, mi, "operator-");
    eq(add(a, b), pl, "add"); eq(subtract(a, b), mi, "subtract"); eq(pixelwise_multiplies(a, b), mu, "pixelwise_multiplies"); eq(divides(a, b), dv, "divides"); eq(multiplies(a, k), [k](double x, double) { return x * k; }, "multiplies by a scalar"); eq(divides(a, k), [k](double x, double) { return x / k; }, "divides by a scalar"); eq(a * k, [k](double x, double) { return x * k; }, "image*scalar");
    eq(negate(a), [](double x, double) { return -x; }, "negate"); eq(negate(std::execution::par, a), [](double x, double) { return -x; }, "negate(par)"); auto ab = abs(a); for (std::size_t i = 0; i < prod(z); ++i) REQ(std::isnan(a.get(i)) ? std::isnan(ab.get(i)) : ab.get(i) == std::fabs(a.get(i)), "abs of " << a.get(i) << " is " << ab.get(i));
}
PROP(scalar_arithmetic, "image of two or more pixels")
{
    Sz z = dims(s, 1, 3, 1, 8, true);
    auto a = dimg(s, z), b = gen(s, z, nz), c = dimg(s, z);
    s.desc << show(a, 6) << " , " << show(b, 6); s.nontrivial(prod(z) > 1);
    auto pl = [](double x, double y) { return x + y; };
    auto mi = [](double x, double y) { return x - y; };
    auto mu = [](double x, double y) { return x * y; };
    auto dv = [](double x, double y) { return x / y; };
    chk2(a + b, a, b, pl, "operator+"); chk2(a - b, a, b, mi, "operator-");
    auto t = a; t += b; chk2(t, a, b, pl, "operator+="); t = a; t -= b; chk2(t, a, b, mi, "operator-=");
    t = a; t *= b; chk2(t, a, b, mu, "operator*="); t = a; t /= b; chk2(t, a, b, dv, "operator/=");
    chk2(add(a, b), a, b, pl, "add"); req_eq(add(a), a, "add of one image");
    auto abc = add(a, b, c); for (std::size_t i = 0; i < prod(z); ++i) REQ(abc.get(i) == a.get(i) + b.get(i) + c.get(i), "add of three images at " << i);
    chk2(subtract(a, b), a, b, mi, "subtract"); chk2(pixelwise_multiplies(a, b), a, b, mu, "pixelwise_multiplies");
    auto m3 = pixelwise_multiplies(a, b, c); for (std::size_t i = 0; i < prod(z); ++i) REQ(close(m3.get(i), a.get(i) * b.get(i) * c.get(i)), "product of three images at " << i);
    chk2(divides(a, b), a, b, dv, "divides");
    double k = nz(s);
    chk1(multiplies(a, k), a, [k](double x) { return x * k; }, "multiplies"); chk1(multiplies(k, a), a, [k](double x) { return x * k; }, "multiplies(times, image)");
    chk1(a * k, a, [k](double x) { return x * k; }, "image*scalar"); chk1(k * a, a, [k](double x) { return x * k; }, "scalar*image");
    int ik = static_cast<int>(s.sint(9)); chk1(multiplies(a, ik), a, [ik](double x) { return x * ik; }, "multiplies by int");
    chk1(divides(a, k), a, [k](double x) { return x / k; }, "divides by scalar");
    chk1(negate(a), a, [](double x) { return -x; }, "negate"); chk1(negate(std::execution::par, a), a, [](double x) { return -x; }, "negate(par)");
    chk1(abs(a), a, [](double x) { return x < 0 ? -x : x; }, "abs"); chk1(abs(std::execution::par, a), a, [](double x) { return x < 0 ? -x : x; }, "abs(par)");
    chk2(difference(a, b), a, b, [](double x, double y) { return x > y ? x - y : y - x; }, "difference");
    long e = s.in(0, 4);
    chk1(pow(a, static_cast<double>(e)), a, [e](double x) { double r = 1; for (long q = 0; q < e; ++q) r *= x; return r; }, "pow");
    chk1(pow(std::execution::par, a, static_cast<double>(e)), a, [e](double x) { double r = 1; for (long q = 0; q < e; ++q) r *= x; return r; }, "pow(par)");
    req_eq(a, a, "");
    auto cpy = pixelwise_transform([](double x, double y, double w) { return x + 2 * y - w; }, a, b, c);
    for (std::size_t i = 0; i < prod(z); ++i) REQ(cpy.get(i) == a.get(i) + 2 * b.get(i) - c.get(i), "pixelwise_transform over three images at " << i);
    chk1(pixelwise_transform(std::execution::par, [](double x) { return x * 2; }, a), a, [](double x) { return x * 2; }, "pixelwise_transform(par)");
    chk1(to_double(a), a, [](double x) { return x; }, "to_double");
    auto cx = to_complex(a), cxp = to_complex(std::execution::par, a);
    for (std::size_t i = 0; i < prod(z); ++i) { REQ(cx.get(i) == std::complex<double>(a.get(i), 0), "to_complex at " << i); REQ(cxp.get(i) == cx.get(i), "to_complex(par) at " << i); }
    REQ(cx.getSize() == z && cxp.getSize() == z, "to_complex size");
    auto gc = generate_complex_image(a, b);
    for (std::size_t i = 0; i < prod(z); ++i) REQ(gc.get(i) == std::complex<double>(a.get(i), b.get(i)), "generate_complex_image at " << i);
}

PROP(integer_arithmetic, "image of two or more pixels")
{
    Sz z = dims(s, 1, 3, 1, 8, true);
    auto a = iimg(s, z, 500), b = gen(s, z, [](Src& t) { int v = static_cast<int>(t.sint(50)); return v ? v : 7; });
    s.desc << show(a, 6) << " , " << show(b, 6); s.nontrivial(prod(z) > 1);
    chk2(a + b, a, b, [](int x, int y) { return x + y; }, "operator+"); chk2(a - b, a, b, [](int x, int y) { return x - y; }, "operator-");
    auto t = a; t *= b; chk2(t, a, b, [](int x, int y) { return x * y; }, "operator*="); t = a; t /= b; chk2(t, a, b, [](int x, int y) { return x / y; }, "operator/=");
    chk2(divides(a, b), a, b, [](int x, int y) { return x / y; }, "divides"); chk2(modulus(a, b), a, b, [](int x, int y) { return x % y; }, "modulus");
    chk2(difference(a, b), a, b, [](int x, int y) { return x > y ? x - y : y - x; }, "difference");
    chk1(negate(a), a, [](int x) { return -x; }, "negate"); chk1(abs(a), a, [](int x) { return x < 0 ? -x : x; }, "abs");
    int k = static_cast<int>(s.sint(20)); chk1(multiplies(a, k), a, [k](int x) { return x * k; }, "multiplies");
    double dk = s.dyadic(8, 8); chk1(multiplies(a, dk), a, [dk](int x) { return x * dk; }, "multiplies int image by real");
    std::vector<Image<int>> va{a, b}, vb{b, a};
    auto vs = subtract(va, vb); REQ(vs.size() == 2, "subtract of lists"); chk2(vs[0], a, b, [](int x, int y) { return x - y; }, "subtract lists [0]"); chk2(vs[1], b, a, [](int x, int y) { return x - y; }, "subtract lists [1]");
    auto vp = add(va, vb); REQ(vp.size() == 2, "add of lists"); chk2(vp[0], a, b, [](int x, int y) { return x + y; }, "add lists"); chk2(vp[1], b, a, [](int x, int y) { return x + y; }, "add lists");
    auto vm = pixelwise_multiplies(va, vb); REQ(vm.size() == 2, "product of lists"); chk2(vm[1], b, a, [](int x, int y) { return x * y; }, "product lists");
    auto ts = to_string(a); for (std::size_t i = 0; i < prod(z); ++i) REQ(ts.get(i) == std::to_string(a.get(i)), "to_string at " << i);
    std::vector<Image<int>> v3 = va; v3.push_back(a);
    REQ(throws_any([&] { (void)subtract(va, v3); }), "subtracting lists of different length is refused");
}

PROP(byte_pixels, "image of two or more pixels")
{
    Sz z = dims(s, 1, 2, 1, 8, true);
    auto a = bimg(s, z), b = bimg(s, z);
    s.desc << show(a, 6) << " , " << show(b, 6); s.nontrivial(prod(z) > 1);
    using u8 = std::uint8_t;
    chk2(a + b, a, b, [](u8 x, u8 y) { return static_cast<u8>(x + y); }, "byte +");
    chk2(a - b, a, b, [](u8 x, u8 y) { return static_cast<u8>(x - y); }, "byte -");
    auto d = difference(a, b);
    for (std::size_t i = 0; i < prod(z); ++i) REQ(static_cast<int>(d.get(i)) == std::abs(a.get(i) - b.get(i)), "byte difference at " << i << " of " << +a.get(i) << "," << +b.get(i) << " is " << +d.get(i));
    double k = static_cast<double>(s.draw(64)) / 16;
    auto m = multiplies(a, k);
    for (std::size_t i = 0; i < prod(z); ++i) REQ(close(static_cast<double>(m.get(i)), a.get(i) * k), "byte image times real at " << i);
    int ik = static_cast<int>(s.draw(9)); auto mi = multiplies(a, ik);
    for (std::size_t i = 0; i < prod(z); ++i) REQ(static_cast<long>(mi.get(i)) == static_cast<long>(a.get(i)) * ik, "byte image times int at " << i);
    auto td = to_double(a); for (std::size_t i = 0; i < prod(z); ++i) REQ(td.get(i) == static_cast<double>(a.get(i)), "to_double byte");
    auto i2 = im2double(a); req_eq(i2, td, "im2double(gray)"); req_eq(im2uint8(i2), a, "im2uint8(im2double(gray))");
}

template<class P> P gpix(Src& s) { P p; for (auto& c : p.channels) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(c)>, std::uint8_t>) c = gb(s); else c = static_cast<std::remove_cvref_t<decltype(c)>>(gd(s)); } return p; }
template<class P> void channels(Src& s)
{
    Sz z = dims(s, 2, 2, 1, 6, true);
    auto a = gen(s, z, gpix<P>), b = gen(s, z, gpix<P>);
    s.desc << show(a, 4) << " , " << show(b, 4); s.nontrivial(prod(z) > 1);
    constexpr bool byte = std::is_same_v<P, RGB>;
    const std::size_t C = std::size(a.get(0).channels);
    auto per = [&](auto f) { return [f, C](const P& x, const P& y) { P r = x; for (std::size_t c = 0; c < C; ++c) r.channels[c] = f(x.channels[c], y.channels[c]); return r; }; };
    chk2(subtract(a, b), a, b, per([](auto x, auto y) { if (byte) return static_cast<decltype(x)>(x > y ? x - y : 0); return static_cast<decltype(x)>(x - y); }), "subtract saturates bytes per channel");
    chk2(difference(a, b), a, b, per([](auto x, auto y) { return static_cast<decltype(x)>(x > y ? x - y : y - x); }), "difference per channel");
    auto t = a; t += b; chk2(t, a, b, per([](auto x, auto y) { return static_cast<decltype(x)>(x + y); }), "operator+= per channel");
    t = a; t -= b; chk2(t, a, b, per([](auto x, auto y) { return static_cast<decltype(x)>(x - y); }), "operator-= per channel");
    double k = static_cast<double>(s.sint(64)) / 16;
    auto m = multiplies(a, k);
    for (std::size_t i = 0; i < prod(z); ++i) for (std::size_t c = 0; c < C; ++c) REQ(close(static_cast<double>(m.get(i).channels[c]), static_cast<double>(a.get(i).channels[c]) * k), "multiplies pixel " << i << " channel " << c);
    REQ(m.getSize() == z, "multiplies size");
    if constexpr (!byte) {
        auto ab = abs(a); for (std::size_t i = 0; i < prod(z); ++i) for (std::size_t c = 0; c < C; ++c) REQ(ab.get(i).channels[c] == std::fabs(a.get(i).channels[c]), "abs pixel " << i << " channel " << c);
        long e = s.in(0, 3); auto pw = pow(a, static_cast<double>(e));
        for (std::size_t i = 0; i < prod(z); ++i) for (std::size_t c = 0; c < C; ++c) REQ(close(pw.get(i).channels[c], std::pow(a.get(i).channels[c], static_cast<double>(e))), "pow pixel " << i << " channel " << c);
        auto sn = sin(a); for (std::size_t i = 0; i < prod(z); ++i) for (std::size_t c = 0; c < C; ++c) REQ(close(sn.get(i).channels[c], std::sin(a.get(i).channels[c])), "sin pixel " << i << " channel " << c);
    }
}
PROP(rgb_pixels, "image of two or more pixels") { channels<RGB>(s); }
PROP(rgb_double_pixels, "image of two or more pixels") { channels<RGB_DOUBLE>(s); }
PROP(hsv_pixels, "image of two or more pixels") { channels<HSV>(s); }
PROP(multichannel3_pixels, "image of two or more pixels") { channels<MultiChannel<double, 3>>(s); }

template<std::size_t N> void mc(Src& s)
{
    using P = MultiChannel<double, N>;
    Sz z = dims(s, 1, 2, 1, 6, true);
    auto a = gen(s, z, gpix<P>), b = gen(s, z, gpix<P>);
    s.desc << N << " channels " << show(a, 3); s.nontrivial(prod(z) > 1);
    auto per = [&](auto f) { return [f](const P& x, const P& y) { P r = x; for (std::size_t c = 0; c < N; ++c) r.channels[c] = f(x.channels[c], y.channels[c]); return r; }; };
    chk2(difference(a, b), a, b, per([](double x, double y) { return std::fabs(x - y); }), "difference of every channel");
    chk2(a + b, a, b, per([](double x, double y) { return x + y; }), "+ of every channel");
    chk2(subtract(a, b), a, b, per([](double x, double y) { return x - y; }), "subtract of every channel");
}
PROP(multichannel2, "image of two or more pixels") { mc<2>(s); }
PROP(multichannel5, "image of two or more pixels") { mc<5>(s); }

PROP(trigonometry, "image of two or more pixels")
{
    Sz z = dims(s, 1, 3, 1, 6, true);
    auto a = gen(s, z, [](Src& t) { double v = t.real(-3, 3); return std::fabs(v) < 0.01 ? 0.5 : v; });
    auto u = gen(s, z, [](Src& t) { return t.real(-1, 1); });
    s.desc << show(a, 6); s.nontrivial(prod(z) > 1);
    chk1(sin(a), a, [](double x) { return std::sin(x); }, "sin"); chk1(cos(a), a, [](double x) { return std::cos(x); }, "cos"); chk1(tan(a), a, [](double x) { return std::tan(x); }, "tan");
    chk1(cot(a), a, [](double x) { return 1 / std::tan(x); }, "cot"); chk1(sec(a), a, [](double x) { return 1 / std::cos(x); }, "sec"); chk1(csc(a), a, [](double x) { return 1 / std::sin(x); }, "csc");
    chk1(asin(u), u, [](double x) { return std::asin(x); }, "asin"); chk1(acos(u), u, [](double x) { return std::acos(x); }, "acos");
    auto c = generate_complex_image(a, u); auto sc = sin(c);
    for (std::size_t i = 0; i < prod(z); ++i) { auto w = std::sin(c.get(i)); REQ(close(sc.get(i).real(), w.real()) && close(sc.get(i).imag(), w.imag()), "complex sin at " << i); }
}

PROP(size_mismatch, "the two images have different sizes")
{
    Sz z1 = dims(s, 1, 3, 1, 5, true), z2 = z1;
    switch (s.draw(3)) {
    case 0: std::reverse(z2.begin(), z2.end()); break;             // same pixel count, other shape
    case 1: z2[s.draw(z2.size() - 1)] = s.sz(1, 5); break;
    case 2: z2.push_back(1); break;
    case 3: z2 = dims(s, 1, 3, 1, 5, true); break;
    }
    auto a = iimg(s, z1), b = gen(s, z2, [](Src& t) { return 1 + static_cast<int>(t.draw(9)); });
    auto before = a;
    bool same_size = z1 == z2;
    s.desc << str(z1) << " with " << str(z2); s.nontrivial(!same_size);
    auto chk = [&](auto f, const char* w) { REQ(throws_any(f) == !same_size, w << " of " << str(z1) << " and " << str(z2) << (same_size ? " is refused" : " is not refused")); };
    chk([&] { (void)(a + b); }, "operator+"); chk([&] { (void)(a - b); }, "operator-");
    chk([&] { auto t = a; t += b; }, "operator+="); chk([&] { auto t = a; t -= b; }, "operator-="); chk([&] { auto t = a; t *= b; }, "operator*="); chk([&] { auto t = a; t /= b; }, "operator/=");
    chk([&] { (void)subtract(a, b); }, "subtract"); chk([&] { (void)pixelwise_multiplies(a, b); }, "pixelwise_multiplies");
    chk([&] { (void)add(a, b); }, "add"); chk([&] { (void)divides(a, b); }, "divides"); chk([&] { (void)modulus(a, b); }, "modulus"); chk([&] { (void)difference(a, b); }, "difference");
    auto c1 = rgbimg(s, z1), c2 = rgbimg(s, z2); chk([&] { (void)difference(c1, c2); }, "difference of colour images"); chk([&] { (void)subtract(c1, c2); }, "subtract of colour images"); auto f1 = gen(s, z1, gpix<RGB_DOUBLE>), f2 = gen(s, z2, gpix<RGB_DOUBLE>); chk([&] { (void)difference(f1, f2); }, "difference of double colour images"); chk([&] { (void)subtract(f1, f2); }, "subtract of double colour images"); chk([&] { (void)add(f1, f2); }, "add of double colour images");
    // the generic pixelwise_transform itself is a known finding (probe below)
    auto t = a; try { t += b; } catch (const std::exception&) { req_eq(t, before, "a refused += leaves the image unchanged"); }
}

PROP(map_functions, "image of two or more pixels")
{
    Sz z = dims(s, 2, 2, 1, 8, true);
    auto a = bimg(s, z); auto r = gen(s, z, gpix<RGB>); auto rd = gen(s, z, gpix<RGB_DOUBLE>); auto h = gen(s, z, gpix<HSV>);
    s.desc << show(a, 6); s.nontrivial(prod(z) > 1);
    int k = static_cast<int>(s.sint(30));
    auto f = [](std::uint8_t x, int q) { return x * 2 + q; };
    auto p1 = apply_each_pixel(std::execution::par, a, f, k), p2 = apply_each_pixel_openmp(a, f, k);
    chk1(p1, a, [&](std::uint8_t x) { return f(x, k); }, "apply_each_pixel"); chk1(p2, a, [&](std::uint8_t x) { return f(x, k); }, "apply_each_pixel_openmp");
    // per-plane application keeps channels apart and in order
    int call_add = static_cast<int>(s.draw(200));
    auto e = apply_each(r, [](const Image<std::uint8_t>& pl, int q) { return pixelwise_transform([q](std::uint8_t x) { return static_cast<std::uint8_t>(x + q); }, pl); }, call_add);
    for (std::size_t i = 0; i < prod(z); ++i) for (int c = 0; c < 3; ++c) REQ(e.get(i).channels[c] == static_cast<std::uint8_t>(r.get(i).channels[c] + call_add), "apply_each RGB pixel " << i << " channel " << c);
    auto ed = apply_each(rd, [](const Image<double>& pl) { return multiplies(pl, 3.0); });
    for (std::size_t i = 0; i < prod(z); ++i) for (int c = 0; c < 3; ++c) REQ(close(ed.get(i).channels[c], rd.get(i).channels[c] * 3), "apply_each RGB_DOUBLE");
    auto eh = apply_each(h, [](const Image<double>& pl) { return multiplies(pl, 3.0); });
    for (std::size_t i = 0; i < prod(z); ++i) for (int c = 0; c < 3; ++c) REQ(close(eh.get(i).channels[c], h.get(i).channels[c] * 3), "apply_each HSV");
    auto so = apply_each_single_output(3, r, [](const Image<std::uint8_t>& pl) { long t = 0; for (auto v : pl.getImageData()) t += v; return t; });
    for (int c = 0; c < 3; ++c) { long t = 0; for (auto& v : r.getImageData()) t += v.channels[c]; REQ(so.size() == 3 && so[c] == t, "apply_each_single_output channel " << c); }
    auto r2 = gen(s, z, gpix<RGB>);
    auto two = apply_each(r, r2, [](const Image<std::uint8_t>& p, const Image<std::uint8_t>& q) { return pixelwise_transform([](std::uint8_t x, std::uint8_t y) { return static_cast<std::uint8_t>(x ^ y); }, p, q); });
    for (std::size_t i = 0; i < prod(z); ++i) for (int c = 0; c < 3; ++c) REQ(two.get(i).channels[c] == (r.get(i).channels[c] ^ r2.get(i).channels[c]), "apply_each of two RGB images");
}

PROP(pixel_types, "always")
{
    auto a = grgb(s), b = grgb(s); auto c = a + b, d = a - b;
    for (int i = 0; i < 3; ++i) { REQ(c.channels[i] == static_cast<std::uint8_t>(a.channels[i] + b.channels[i]), "RGB +"); REQ(d.channels[i] == static_cast<std::uint8_t>(a.channels[i] - b.channels[i]), "RGB -"); }
    auto h1 = gpix<HSV>(s), h2 = gpix<HSV>(s); auto hs = h1 + h2, hd = h1 - h2;
    auto q1 = gpix<RGB_DOUBLE>(s), q2 = gpix<RGB_DOUBLE>(s); auto qs = q1 + q2, qd = q1 - q2;
    auto m1 = gpix<MultiChannel<double, 4>>(s), m2 = gpix<MultiChannel<double, 4>>(s); auto ms = m1 + m2, md = m1 - m2;
    for (int i = 0; i < 3; ++i) REQ(hs.channels[i] == h1.channels[i] + h2.channels[i] && hd.channels[i] == h1.channels[i] - h2.channels[i] && qs.channels[i] == q1.channels[i] + q2.channels[i] && qd.channels[i] == q1.channels[i] - q2.channels[i], "HSV / RGB_DOUBLE arithmetic");
    for (int i = 0; i < 4; ++i) REQ(ms.channels[i] == m1.channels[i] + m2.channels[i] && md.channels[i] == m1.channels[i] - m2.channels[i], "MultiChannel arithmetic");
    bool lt = false; for (int i = 0; i < 3; ++i) if (h1.channels[i] != h2.channels[i]) { lt = h1.channels[i] < h2.channels[i]; break; }
    REQ((h1 < h2) == lt && !(h1 < h1), "HSV ordering is lexicographic");
    Point<3> p{{s.uz(0, 9), s.uz(0, 9), s.uz(0, 9)}}, q{{s.uz(0, 9), s.uz(0, 9), s.uz(0, 9)}}; auto pq = p + q, back = pq - q;
    for (int i = 0; i < 3; ++i) REQ(pq.p[i] == p.p[i] + q.p[i] && back.p[i] == p.p[i], "Point arithmetic");
    s.nontrivial();
}

// known finding: the generic n-ary pixelwise_transform does not compare sizes (an existing test program relies on that)
static pbt::RegK k_pt("pixelwise_transform_sizes", "pixelwise_transform of 1x1 with 2x1", [] {
    return !throws_any([] { (void)pixelwise_transform([](int x, int y) { return x + y; }, Image<int>(std::vector<int>{1}, Sz{1, 1}), Image<int>(std::vector<int>{1, 2}, Sz{2, 1})); });
});
template<class T> static void narrow(Src& s)
{   // values for which every result fits the pixel type
    Sz z = dims(s, 1, 3, 1, 6, true); long m = std::is_same_v<T, std::int64_t> ? 1000000000L : 120; auto gv = [m](Src& t) { if constexpr (std::is_signed_v<T>) return static_cast<T>(t.sint(m)); else return static_cast<T>(t.draw(static_cast<std::uint64_t>(m))); };
    auto a = gen(s, z, [&](Src& t) { T v = gv(t); return v < 0 ? v : static_cast<T>(v + m); }), b = gen(s, z, [&](Src& t) { T v = gv(t); return v ? v : static_cast<T>(7); }); s.desc << show(a, 6) << " , " << show(b, 6); s.nontrivial(prod(z) > 1);
    auto c2 = [&](const auto& o, auto f, const char* w) { REQ(o.getSize() == z, w << " size"); for (std::size_t i = 0; i < prod(z); ++i) { auto want = f(a.get(i), b.get(i)); auto got = o.get(i); REQ(static_cast<double>(got) == static_cast<double>(static_cast<decltype(got)>(want)), w << ": pixel " << i << " of " << +a.get(i) << ", " << +b.get(i) << " is " << +got << " expected " << +want); } };
    auto pl = [](T x, T y) { return x + y; }, mi = [](T x, T y) { return x - y; }, mu = [](T x, T y) { return x * y; }, dv = [](T x, T y) { return x / y; };
    c2(a + b, pl, "operator+"); c2(a - b, mi, "operator-"); if constexpr (sizeof(T) >= sizeof(int)) { c2(add(a, b), pl, "add"); c2(subtract(a, b), mi, "subtract"); c2(divides(a, b), dv, "divides"); } c2(pixelwise_multiplies(a, b), mu, "pixelwise_multiplies"); c2(difference(a, b), [](T x, T y) { return x > y ? x - y : y - x; }, "difference"); c2(abs(a), [](T x, T) { return x < 0 ? -x : x; }, "abs");
    auto t = a; t += b; c2(t, pl, "operator+="); t = a; t -= b; c2(t, mi, "operator-="); t = a; t *= b; c2(t, mu, "operator*="); t = a; t /= b; c2(t, dv, "operator/="); T k = gv(s); if (!k) k = 3; c2(multiplies(a, k), [k](T x, T) { return x * k; }, "multiplies by scalar"); if constexpr (sizeof(T) >= sizeof(int)) c2(divides(a, k), [k](T x, T) { return x / k; }, "divides by scalar");
    if constexpr (std::is_integral_v<T> && sizeof(T) >= sizeof(int)) c2(modulus(a, b), [](T x, T y) { return x % y; }, "modulus");
}
PROP(float_pixels, "image of two or more pixels") { narrow<float>(s); }
PROP(short_pixels, "image of two or more pixels") { narrow<std::int16_t>(s); }
PROP(word_pixels, "image of two or more pixels") { narrow<std::uint16_t>(s); }
PROP(long_pixels, "image of two or more pixels") { narrow<std::int64_t>(s); }
