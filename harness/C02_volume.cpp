// C02: arithmetic of three-dimensional volumes
// vp-weight: 0.3
#include "img.h"
#include "cube.h"
#include "cube_operations.h"
using namespace g;
using namespace TinyDIP;
template<class T> using V = VolumetricImage<T>;

template<class T, class F> static std::vector<T> vals(Src& s, std::size_t n, F f) { std::vector<T> v(n); for (auto& e : v) e = f(s); return v; }
static Sz other(Src& s, Sz z) { Sz o = z; if (s.flip() && z[0] * z[1] * z[2] > 1) { std::swap(o[s.draw(2)], o[s.draw(2)]); } if (o == z) o[s.draw(2)] += 1 + s.draw(1); return o; }

template<class T, class F> static void arith(Src& s, F f, bool mod)
{
    Sz z{s.sz(1, 4), s.sz(1, 4), s.sz(1, 4)}; auto n = prod(z); auto a = vals<T>(s, n, f), b = vals<T>(s, n, f), c = vals<T>(s, n, f); for (auto& e : b) if (e == T{}) e = T{1}; T k = f(s);
    s.desc << "volume " << str(z) << " values " << ps(a[0]) << "," << ps(b[0]) << " factor " << ps(k); s.nontrivial(n > 1); V<T> A(a, z[0], z[1], z[2]), B(b, z[0], z[1], z[2]), C(c, z[0], z[1], z[2]); const V<T> A0 = A, B0 = B;
    auto is = [&](const V<T>& r, auto op, const char* what) { REQ(r.getWidth() == z[0] && r.getHeight() == z[1] && r.getDepth() == z[2] && r.getData().size() == n, what << ": size"); for (std::size_t i = 0; i < n; ++i) { T e = static_cast<T>(op(i)); REQ(r.getData()[i] == e, what << " at " << i << " is " << ps(r.getData()[i]) << " expected " << ps(e)); } };
    auto sum = [&](std::size_t i) { return a[i] + b[i]; }; auto dif = [&](std::size_t i) { return a[i] - b[i]; }; auto mul = [&](std::size_t i) { return a[i] * b[i]; }; auto quo = [&](std::size_t i) { return a[i] / b[i]; };
    is(plus(A), [&](std::size_t i) { return a[i]; }, "plus of one"); is(plus(A, B), sum, "plus"); is(plus(A, B, C), [&](std::size_t i) { return a[i] + static_cast<T>(b[i] + c[i]); }, "plus of three"); is(A + B, sum, "operator+"); { auto x = A; x += B; is(x, sum, "operator+="); }
    is(subtract(A, B), dif, "subtract"); is(A - B, dif, "operator-"); { auto x = A; x -= B; is(x, dif, "operator-="); }
    is(multiplies(A, B), mul, "multiplies"); { auto x = A; x *= B; is(x, mul, "operator*="); } auto sc = [&](std::size_t i) { return a[i] * k; }; is(multiplies(A, k), sc, "multiplies by a number"); is(multiplies(k, A), sc, "number times volume"); is(A * k, sc, "volume * number"); is(k * A, sc, "number * volume");
    is(divides(A, B), quo, "divides"); { auto x = A; x /= B; is(x, quo, "operator/="); } is(negate(A), [&](std::size_t i) { return -a[i]; }, "negate"); if constexpr (std::integral<T>) if (mod) is(modulus(A, B), [&](std::size_t i) { return a[i] % b[i]; }, "modulus");
    auto lv = plus(std::vector<V<T>>{A, B}, std::vector<V<T>>{B, A}); REQ(lv.size() == 2, "plus of lists"); is(lv[0], sum, "plus of lists"); is(lv[1], [&](std::size_t i) { return b[i] + a[i]; }, "plus of lists"); auto ls = subtract(std::vector<V<T>>{A, A}, std::vector<V<T>>{B, A}); REQ(ls.size() == 2, "list"); is(ls[0], dif, "subtract of lists"); is(ls[1], [&](std::size_t i) { return a[i] - a[i]; }, "subtract of lists"); auto ld = divides(std::vector<V<T>>{A}, std::vector<V<T>>{B}); is(ld[0], quo, "divides of lists");
    REQ(A == A0 && B == B0, "the operands change"); REQ(is_size_same(A, B) && is_size_same(A, B, C) && is_width_same(A, B, C) && is_height_same(A, B, C) && is_depth_same(A, B, C), "same sizes");
}
PROP(volume_int, "more than one voxel") { arith<int>(s, [](Src& t) { return static_cast<int>(t.sint(1000)); }, true); }
PROP(volume_double, "more than one voxel") { arith<double>(s, [](Src& t) { return t.dyadic(100, 8); }, false); }
PROP(volume_unsigned, "more than one voxel") { arith<unsigned>(s, [](Src& t) { return static_cast<unsigned>(t.draw(255)); }, true); }
PROP(volume_sizes, "the sizes differ")
{
    Sz z{s.sz(1, 3), s.sz(1, 3), s.sz(1, 3)}, o = other(s, z); auto f = [](Src& t) { return static_cast<int>(1 + t.draw(8)); }; V<int> A(vals<int>(s, prod(z), f), z[0], z[1], z[2]), B(vals<int>(s, prod(o), f), o[0], o[1], o[2]); s.desc << str(z) << " with " << str(o); s.nontrivial(); const V<int> A0 = A;
    REQ(is_width_same(A, B) == (z[0] == o[0]) && is_height_same(A, B) == (z[1] == o[1]) && is_depth_same(A, B) == (z[2] == o[2]) && !is_size_same(A, B) && !is_size_same(A, A, B), "size comparison");
    auto no = [&](auto g, const char* what) { REQ(throws<std::runtime_error>(g), what << " of different sizes is accepted"); }; no([&] { (void)plus(A, B); }, "plus"); no([&] { (void)plus(A, A, B); }, "plus of three"); no([&] { (void)subtract(A, B); }, "subtract"); no([&] { (void)multiplies(A, B); }, "multiplies"); no([&] { (void)divides(A, B); }, "divides"); no([&] { (void)modulus(A, B); }, "modulus");
    no([&] { A += B; }, "+="); no([&] { A -= B; }, "-="); no([&] { A *= B; }, "*="); no([&] { A /= B; }, "/="); no([&] { (void)(A + B); }, "+"); no([&] { (void)(A - B); }, "-"); no([&] { check_size_same(A, B); }, "check_size_same"); REQ(A == A0, "a refused operation changes its operand");
    REQ(throws<std::runtime_error>([&] { check_width_same(A, B); }) == (z[0] != o[0]) && throws<std::runtime_error>([&] { check_height_same(A, B); }) == (z[1] != o[1]) && throws<std::runtime_error>([&] { check_depth_same(A, B); }) == (z[2] != o[2]), "check_*_same");
    V<int> e; REQ(e.getWidth() == 0 && e.getHeight() == 0 && e.getDepth() == 0 && e.getData().empty(), "default volume"); REQ(throws_any([&] { (void)e.at(0, 0, 0); }), "access to a default volume");
    std::vector<TinyDIP::Image<int>> sl{iimg(s, Sz{z[0], z[1]}), iimg(s, Sz{o[0], o[1]})}; if (z[0] != o[0] || z[1] != o[1]) REQ(throws_any([&] { V<int> v(sl); }), "a volume from slices of different sizes"); REQ(throws_any([&] { V<int> v(std::vector<TinyDIP::Image<int>>{}); }), "a volume from no slices");
}
