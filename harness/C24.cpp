// C24: image generators, index conversion, random images, LaTeX output
#include "img.h"
#include <fstream>
#include <filesystem>
#include <random>
#include <cmath>
#include <set>
using namespace g;
using namespace TinyDIP;

template<class F> static auto with(const Sz& z, F f) { switch (z.size()) { case 1: return f(z[0]); case 2: return f(z[0], z[1]); case 3: return f(z[0], z[1], z[2]); default: return f(z[0], z[1], z[2], z[3]); } }
template<class F> static auto withi(const Sz& z, F f) { auto i = [&](int k) { return static_cast<int>(z[static_cast<std::size_t>(k)]); }; switch (z.size()) { case 1: return f(i(0)); case 2: return f(i(0), i(1)); case 3: return f(i(0), i(1), i(2)); default: return f(i(0), i(1), i(2), i(3)); } }
template<class T> static void filled(const Image<T>& a, const Sz& z, T v, const char* what) { REQ(a.getSize() == z, what << " has size " << str(a.getSize()) << " expected " << str(z)); REQ(data(a).size() == prod(z), what << ": number of pixels"); for (auto& e : data(a)) REQ(e == v, what << ": a pixel differs"); }

PROP(constants, "more than one pixel in more than one dimension")
{
    Sz z = dims(s, 1, 4, 1, 4, true); s.desc << str(z); s.nontrivial(z.size() > 1 && prod(z) > 1);
    filled(with(z, [](auto... k) { return zeros<int>(k...); }), z, 0, "zeros"); filled(with(z, [](auto... k) { return zeros<double>(k...); }), z, 0.0, "zeros of doubles"); filled(with(z, [](auto... k) { return zeros<RGB>(k...); }), z, RGB{}, "zeros of colours"); filled(zeros<float>(z), z, 0.f, "zeros of a size list"); filled(zeros<int>(std::vector<int>(z.begin(), z.end())), z, 0, "zeros of a list of ints");
    filled(with(z, [](auto... k) { return ones<int>(k...); }), z, 1, "ones"); filled(with(z, [](auto... k) { return ones<double>(k...); }), z, 1.0, "ones of doubles"); filled(with(z, [](auto... k) { return ones<std::uint8_t>(k...); }), z, std::uint8_t{1}, "ones of bytes"); auto n = with(z, [](auto... k) { return TinyDIP::nan(k...); }); REQ(n.getSize() == z && data(n).size() == prod(z), "size of nan"); for (auto e : data(n)) REQ(e != e, "a pixel of nan is " << e);
}
PROP(indices, "more than one dimension above one")
{
    Sz z = dims(s, 1, 5, 1, 5, true); std::size_t k = s.draw(prod(z) - 1); s.desc << k << " in " << str(z); std::size_t big = 0; for (auto e : z) big += e > 1; s.nontrivial(big > 1); auto w = g::coord(k, z); auto a = linear_index_to_indices(k, z); REQ(a == w, "indices " << str(a) << " expected " << str(w));
    Sz st(z.size(), 1); for (std::size_t i = 1; i < z.size(); ++i) st[i] = st[i - 1] * z[i - 1]; REQ(linear_index_to_indices(k, st, z) == w, "indices with strides"); std::array<std::size_t, 3> az{{s.sz(1, 5), s.sz(1, 5), s.sz(1, 5)}}; std::size_t j = s.draw(az[0] * az[1] * az[2] - 1); REQ(linear_index_to_indices(j, az) == g::coord(j, Sz(az.begin(), az.end())), "indices of an array of sizes");
    Sz p(z.size()); for (std::size_t i = 0; i < p.size(); ++i) p[i] = z.size() - 1 - i; Sz rs(z.size(), 1); for (std::size_t i = z.size(); i-- > 1;) rs[i - 1] = rs[i] * z[i]; auto b = linear_index_to_indices(k, rs, z); std::size_t back = 0; for (std::size_t i = 0; i < z.size(); ++i) { REQ(b[i] < z[i], "index beyond the size"); back += b[i] * rs[i]; } REQ(back == k, "indices with row-major strides");
}
PROP(generated, "more than one pixel")
{
    Sz z = dims(s, 1, 4, 1, 4, true); s.desc << str(z); s.nontrivial(prod(z) > 1); auto chk = [&](const auto& im, int calls, const char* what) { REQ(im.getSize() == z, what << ": size " << str(im.getSize())); REQ(static_cast<std::size_t>(calls) == prod(z), what << ": " << calls << " calls for " << prod(z) << " pixels"); for (std::size_t i = 0; i < prod(z); ++i) REQ(im.get(i) == static_cast<int>(i + 1) * 3, what << ": pixel " << i << " holds " << im.get(i)); };
    int c = 0; auto f = [&c] { return 3 * ++c; }; auto a = generate(f, z); chk(a, c, "generate with a size list"); c = 0; auto b = with(z, [&](auto... k) { return generate(f, k...); }); chk(b, c, "generate"); c = 0; auto d = withi(z, [&](auto... k) { return generate(f, k...); }); chk(d, c, "generate with ints"); c = 0; auto e = generate(f, std::vector<int>(z.begin(), z.end())); chk(e, c, "generate with a list of ints");
}
PROP(complex_image, "more than one pixel")
{
    Sz z = dims(s, 1, 3, 1, 4, true), y = s.chance(1, 4) ? dims(s, 1, 3, 1, 4, true) : z; auto re = dimg(s, z), im = dimg(s, y); s.desc << str(z) << " and " << str(y); s.nontrivial(z == y && prod(z) > 1); if (z != y) { REQ(throws<std::runtime_error>([&] { (void)generate_complex_image(re, im); }), "planes of different sizes are accepted"); return; }
    auto c = generate_complex_image(re, im); REQ(c.getSize() == z, "size"); for (std::size_t i = 0; i < prod(z); ++i) REQ(c.get(i).real() == re.get(i) && c.get(i).imag() == im.get(i), "pixel " << i);
}
PROP(random_real, "at least 32 pixels")
{
    Sz z = s.chance(1, 8) ? Sz{40, 40} : dims(s, 1, 4, 1, 6, true); unsigned seed = static_cast<unsigned>(s.draw(1000000)); s.desc << str(z) << " seed " << seed; s.nontrivial(prod(z) >= 32); std::mt19937 a(seed), b(seed), c(seed + 1); auto gen = [&](auto& e) { return with(z, [&](auto... k) { return TinyDIP::rand(e, k...); }); };
    auto x = gen(a), y = gen(b), w = gen(c), x2 = gen(a); REQ(x.getSize() == z && data(x).size() == prod(z), "size"); req_eq(x, y, "the same engine state gives the same image"); double sum = 0, sq = 0; for (auto v : data(x)) { REQ(v >= 0 && v < 1, "value " << v); sum += v; sq += v * v; } double n = static_cast<double>(prod(z)); REQ(std::fabs(sum / n - 0.5) < 7 * 0.2887 / std::sqrt(n), "mean " << sum / n); if (n > 1000) REQ(std::fabs(sq / n - 1. / 3) < 0.06, "mean square " << sq / n);
    if (prod(z) >= 8) { REQ(data(x) != data(w), "another seed gives the same image"); REQ(data(x) != data(x2), "the engine does not advance"); std::set<double> u(data(x).begin(), data(x).end()); REQ(u.size() == prod(z), "repeated values in a random image"); }
    auto f = with(z, [&](auto... k) { return TinyDIP::rand<float>(a, k...); }); REQ(f.getSize() == z, "size of a float image"); for (auto v : data(f)) REQ(v >= 0 && v <= 1, "float value " << v); auto fi = withi(z, [&](auto... k) { return TinyDIP::rand(a, k...); }); REQ(fi.getSize() == z, "size with ints"); auto one = TinyDIP::rand(a); REQ(data(one).size() == 1 && one.get(0) >= 0 && one.get(0) < 1, "single value"); auto un = with(z, [&](auto... k) { return TinyDIP::rand(k...); }); REQ(un.getSize() == z, "size without engine"); for (auto v : data(un)) REQ(v >= 0 && v < 1, "value without engine"); auto p = TinyDIP::rand(); REQ(p.getSize() == (Sz{1, 1}), "single pixel");
}
template<class T> static void rint_(Src& s, long lo, long hi)
{
    Sz z = s.chance(1, 8) ? Sz{50, 40} : dims(s, 1, 4, 1, 6, true); long a = lo + static_cast<long>(s.draw(static_cast<std::uint64_t>(hi - lo))), b = s.chance(1, 3) ? std::min(hi, a + static_cast<long>(s.draw(5))) : hi; unsigned seed = static_cast<unsigned>(s.draw(1000000)); s.desc << str(z) << " in [" << a << "," << b << "] seed " << seed; s.nontrivial(prod(z) >= 32 && b > a); std::mt19937 e(seed), e2(seed); std::pair<T, T> r(static_cast<T>(a), static_cast<T>(b));
    auto x = with(z, [&](auto... k) { return randi<T>(e, r, k...); }), y = with(z, [&](auto... k) { return randi<T>(e2, r, k...); }); REQ(x.getSize() == z && data(x).size() == prod(z), "size"); req_eq(x, y, "the same engine state gives the same image"); double sum = 0; std::set<long> u; for (auto v : data(x)) { REQ(v >= r.first && v <= r.second, "value " << +v); sum += static_cast<double>(v); u.insert(static_cast<long>(v)); } double n = static_cast<double>(prod(z)), w = static_cast<double>(b - a), m = (static_cast<double>(a) + static_cast<double>(b)) / 2; REQ(std::fabs(sum / n - m) <= 7 * (w + 2) * 0.2887 / std::sqrt(n), "mean " << sum / n << " expected " << m); if (prod(z) == 2000 && b - a <= 5) REQ(u.size() == static_cast<std::size_t>(b - a + 1), "only " << u.size() << " of the values appear");
    auto ny = with(z, [&](auto... k) { return randi<T>(r, k...); }); REQ(ny.getSize() == z, "size without engine"); for (auto v : data(ny)) REQ(v >= r.first && v <= r.second, "value " << +v << " without engine"); auto single = randi<T>(e, r); REQ(data(single).size() == 1 && single.get(0) >= r.first && single.get(0) <= r.second, "single value"); T mx = static_cast<T>(std::max(1L, b)); auto ml = with(z, [&](auto... k) { return randi<T>(mx, k...); }); for (auto v : data(ml)) REQ(v >= 1 && v <= mx, "value " << +v << " for a maximum of " << +mx); std::mt19937 q1(seed), q2(seed); for (int i = 0; i < 4; ++i) { auto k1 = randi<T>(q1, mx); auto k2 = randi<T>(q2, std::pair<T, T>(static_cast<T>(1), mx)); REQ(data(k1).size() == 1 && k1.get(0) == k2.get(0), "randi with an engine and a maximum of " << +mx << " gives " << +k1.get(0) << ", with the range from 1 " << +k2.get(0)); auto k3 = randi<T>(mx); REQ(data(k3).size() == 1 && k3.get(0) >= 1 && k3.get(0) <= mx, "single value " << +k3.get(0) << " for a maximum of " << +mx); }
}
PROP(random_int, "at least 32 pixels and more than one value") { rint_<int>(s, -100000, 100000); }
PROP(random_short, "at least 32 pixels and more than one value") { rint_<short>(s, -32768, 32767); }

PROP(latex, "more than one pixel")
{
    Sz z{s.sz(1, 4), s.sz(1, 4)}; auto a = rgbimg(s, z); s.desc << show(a, 4); s.nontrivial(prod(z) > 1); std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); print_with_latex(a); std::cout.rdbuf(old); auto f = pbt::scratch() + "/t.tex"; print_with_latex_to_file(a, f); std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); std::filesystem::remove(f); REQ(ss.str() == o.str(), "file and stream differ");
    std::istringstream is(o.str()); std::string l; std::getline(is, l); REQ(l.find("\\begin{tikzpicture}") == 0, "first line"); std::vector<bool> seen(prod(z)); std::size_t n = 0; while (std::getline(is, l) && l.find("\\end") != 0) { std::size_t x, y; int r, gg, b; REQ(std::sscanf(l.c_str(), "\\draw (%zu,%zu) node[anchor=south,fill={rgb:red,%d;green,%d;blue,%d}] {};", &x, &y, &r, &gg, &b) == 5 && x < z[0] && y < z[1], "line " << l); auto p = px(a, x, y); REQ(r == p.channels[0] && gg == p.channels[1] && b == p.channels[2], "colour at " << x << "," << y); REQ(!seen[y * z[0] + x], "pixel twice"); seen[y * z[0] + x] = true; ++n; } REQ(n == prod(z) && l == "\\end{tikzpicture}", n << " pixels written");
}
