// C14: predicates, reductions and distances over whole images
#include "img.h"
using namespace g;
using namespace TinyDIP;

template<class T> static void preds(Src& s, const Image<T>& a)
{
    auto& d = data(a); std::size_t pos = 0, neg = 0, zer = 0, ge = 0, le = 0; for (auto v : d) { pos += v > 0; neg += v < 0; zer += v == 0; ge += v >= 0; le += v <= 0; } std::size_t n = d.size();
    auto is = [&](bool got, bool want, const char* w) { REQ(got == want, w << " is " << got << " for " << pos << " positive, " << neg << " negative, " << zer << " zero"); };
    is(all_positive(a), pos == n, "all_positive"); is(all_non_negative(a), ge == n, "all_non_negative"); is(all_zero(a), zer == n, "all_zero"); is(all_negative(a), neg == n, "all_negative"); is(all_non_positive(a), le == n, "all_non_positive");
    is(any_positive(a), pos > 0, "any_positive"); is(any_non_negative(a), ge > 0, "any_non_negative"); is(any_zero(a), zer > 0, "any_zero"); is(any_negative(a), neg > 0, "any_negative"); is(any_non_positive(a), le > 0, "any_non_positive");
    is(none_positive(a), pos == 0, "none_positive"); is(none_non_negative(a), ge == 0, "none_non_negative"); is(none_zero(a), zer == 0, "none_zero"); is(none_negative(a), neg == 0, "none_negative"); is(none_non_positive(a), le == 0, "none_non_positive");
    T t = s.chance(1, 3) ? T{ 1 } : d[s.draw(n - 1)]; std::size_t m = 0; for (auto v : d) m += v >= t; auto p = [&](T v) { return v >= t; };
    is(TinyDIP::all_of(a, p), m == n, "all_of"); is(TinyDIP::any_of(a, p), m > 0, "any_of"); is(TinyDIP::none_of(a, p), m == 0, "none_of");
}
template<class T, class F> static Image<T> pattern(Src& s, F f)
{
    Sz z = dims(s, 1, 3, 1, 5, true); std::vector<T> v(prod(z)); int mode = static_cast<int>(s.draw(4)); T b = mode == 1 ? T{} : f(s); for (auto& e : v) e = mode == 0 ? f(s) : b;
    if (mode == 3 && !v.empty()) v[s.draw(v.size() - 1)] = f(s); if (mode == 4) v.back() = f(s); return Image<T>(v, z);
}
PROP(predicates_double, "more than one pixel") { auto a = pattern<double>(s, [](Src& t) { return t.dyadic(1, 2); }); s.desc << show(a); s.nontrivial(a.count() > 1); preds(s, a); }
PROP(predicates_special, "more than one pixel") { auto a = pattern<double>(s, [](Src& t) { switch (t.draw(7)) { case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::quiet_NaN(); case 3: return std::numeric_limits<double>::infinity(); case 4: return -std::numeric_limits<double>::infinity(); case 5: return std::numeric_limits<double>::denorm_min(); case 6: return -std::numeric_limits<double>::denorm_min(); default: return t.dyadic(1, 2); } }); s.desc << show(a); s.nontrivial(a.count() > 1); preds(s, a); }
PROP(predicates_int, "more than one pixel") { auto a = pattern<int>(s, [](Src& t) { return static_cast<int>(t.sint(2)); }); s.desc << show(a); s.nontrivial(a.count() > 1); preds(s, a); }

PROP(predicates_short, "more than one pixel") { auto a = pattern<std::int16_t>(s, [](Src& t) { return static_cast<std::int16_t>(t.sint(2) * 256); }); s.desc << show(a); s.nontrivial(a.count() > 1); preds(s, a); }
PROP(shapes, "the sizes differ in exactly one axis")
{
    Sz z[3]; for (auto& e : z) { e = dims(s, 2, 2, 1, 3, true); } if (s.chance(1, 3)) z[1] = z[0]; if (s.chance(1, 3)) z[2] = z[1];
    Image<int> a[3] = {iimg(s, z[0]), iimg(s, z[1]), iimg(s, z[2])}; s.desc << str(z[0]) << " " << str(z[1]) << " " << str(z[2]); bool w = z[0][0] == z[1][0], h = z[0][1] == z[1][1], w3 = w && z[1][0] == z[2][0], h3 = h && z[1][1] == z[2][1]; s.nontrivial(w != h);
    REQ(is_width_same(a[0], a[1]) == w && is_height_same(a[0], a[1]) == h && is_size_same(a[0], a[1]) == (w && h), "two images"); REQ(is_width_same(a[0], a[1], a[2]) == w3 && is_height_same(a[0], a[1], a[2]) == h3 && is_size_same(a[0], a[1], a[2]) == (w3 && h3), "three images");
    REQ(throws<std::runtime_error>([&] { check_width_same(a[0], a[1]); }) == !w, "check_width_same"); REQ(throws<std::runtime_error>([&] { check_height_same(a[0], a[1]); }) == !h, "check_height_same"); REQ(throws<std::runtime_error>([&] { check_size_same(a[0], a[1]); }) == !(w && h), "check_size_same");
}
PROP(symmetry, "square with an off-diagonal")
{
    Sz z = dims(s, 1, 3, 1, 6); if (z.size() == 2 && s.chance(3, 4)) z[1] = z[0] = std::min<std::size_t>(z[0], 260); auto a = iimg(s, z, 3); if (z.size() != 2) { s.desc << str(z); REQ(throws<std::runtime_error>([&] { is_symmetry(a); }), "accepts dimensionality " << z.size()); return; }
    std::vector<int> v = data(a); if (z[0] == z[1]) { for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < y; ++x) v[y * z[0] + x] = v[x * z[0] + y]; if (s.flip()) { std::size_t x = s.draw(z[0] - 1), y = s.draw(z[0] - 1); ++v[y * z[0] + x]; } }
    bool want = z[0] == z[1]; if (want) for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < y; ++x) want = want && v[y * z[0] + x] == v[x * z[0] + y];
    Image<int> b(v, z); s.desc << show(b); s.nontrivial(z[0] == z[1] && z[0] > 1); REQ(is_symmetry(b) == want, "is_symmetry is " << !want);
}
PROP(sums, "more than one pixel")
{
    Sz z = dims(s, 1, 3, 1, 6, true); auto a = dimg(s, z); auto i = iimg(s, z, 1000); s.desc << show(a, 10); s.nontrivial(a.count() > 1); double w = 0; for (auto v : data(a)) w += v; long wi = 0; for (auto v : data(i)) wi += v;
    REQ(sum(a) == w && sum(std::execution::seq, a) == w && sum(std::execution::par, a) == w && sum(std::execution::par_unseq, a) == w, "sum " << sum(a) << " expected " << w); REQ(sum(i) == wi && sum(std::execution::par, i) == wi, "integer sum " << sum(i) << " expected " << wi);
    double n = static_cast<double>(a.count()); REQ(close(mean(a), w / n, 1e-12, 0) && close(mean(std::execution::seq, a), w / n, 1e-12, 0) && close(mean(std::execution::par, a), w / n, 1e-12, 0), "mean " << mean(a) << " expected " << w / n);
    long c = static_cast<long>(i.count()); auto mi = mean(i); REQ(mi == wi / c && mean(std::execution::par, i) == wi / c, "integer mean " << mi << " expected " << wi / c);
    auto mx = [](int x, int y) { return std::max(x, y); }; int best = 0; for (auto v : data(i)) best = std::max(best, v); REQ(sum(i, mx) == best && sum(std::execution::par, i, mx) == best, "reduction with max");
}
template<class T> static void mean_wide(Src& s)
{
    Sz z = dims(s, 1, 2, 1, 7); auto a = gen(s, z, [](Src& t) { T m = std::numeric_limits<T>::max(); return static_cast<T>(t.flip() ? m - static_cast<T>(t.draw(9)) : t.flip() ? std::numeric_limits<T>::min() + static_cast<T>(t.draw(9)) : static_cast<T>(t.draw(99))); }); __int128 w = 0; for (auto v : data(a)) w += v; s.desc << show(a, 8); s.nontrivial(w > std::numeric_limits<T>::max() || w < std::numeric_limits<T>::min()); long long m = static_cast<long long>(w / static_cast<__int128>(a.count())); REQ(static_cast<long long>(mean(a)) == m && static_cast<long long>(mean(std::execution::par, a)) == m, "mean " << mean(a) << " expected " << m);
}
PROP(mean_large, "the sum exceeds the pixel type") { switch (s.draw(2)) { case 0: mean_wide<int>(s); break; case 1: mean_wide<std::uint32_t>(s); break; default: mean_wide<std::int16_t>(s); } }
PROP(mean_narrow, "the sum exceeds the pixel type")
{
    Sz z = dims(s, 1, 2, 1, 7, true); auto a = bimg(s, z); long w = 0; for (auto v : data(a)) w += v; s.desc << show(a, 10); s.nontrivial(w > 255); long m = w / static_cast<long>(a.count()); auto g1 = mean(a), g2 = mean(std::execution::par, a); REQ(static_cast<long>(g1) == m && static_cast<long>(g2) == m, "mean " << +g1 << " expected " << m);
}
PROP(extremes, "a non-constant image")
{
    Sz z = dims(s, 1, 3, 1, 5, true); auto a = dimg(s, z); auto b = bimg(s, z); s.desc << show(a, 10); auto& d = data(a); double lo = d[0], hi = d[0]; for (auto v : d) { lo = std::min(lo, v); hi = std::max(hi, v); } s.nontrivial(lo < hi);
    REQ(min(a) == lo && max(a) == hi, "min " << min(a) << " max " << max(a)); auto mm = minmax(a); REQ(mm.min == lo && mm.max == hi, "minmax"); int bl = 255, bh = 0; for (auto v : data(b)) { bl = std::min<int>(bl, v); bh = std::max<int>(bh, v); } REQ(min(b) == bl && max(b) == bh && minmax(b).min == bl && minmax(b).max == bh, "byte extremes");
    auto srt = TinyDIP::sort(a); auto w = d; for (std::size_t i = 1; i < w.size(); ++i) for (std::size_t j = i; j > 0 && w[j] < w[j - 1]; --j) std::swap(w[j], w[j - 1]); REQ(srt == w, "sort is not the ascending rearrangement");
    auto sb = TinyDIP::sort(b); std::array<int, 256> h{}; for (auto v : data(b)) ++h[v]; for (auto v : sb) --h[v]; for (auto c : h) REQ(c == 0, "sort changes the multiset"); for (std::size_t i = 1; i < sb.size(); ++i) REQ(sb[i - 1] <= sb[i], "sort not ascending");
    if (lo < hi) { auto n = normalize(a); REQ(n.getSize() == z, "normalised size"); for (std::size_t i = 0; i < d.size(); ++i) { double q = (d[i] - lo) / (hi - lo); REQ(close(data(n)[i], q, 1e-12, 1e-15), "normalised " << d[i] << " is " << data(n)[i] << " expected " << q); REQ(data(n)[i] >= 0 && data(n)[i] <= 1, "normalised outside [0,1]"); } }
}
template<class P> static void chan_extremes(const Image<P>& a)
{
    auto lo = min(a), hi = max(a); std::size_t nc = std::size(P{}.channels); REQ(lo.size() == nc && hi.size() == nc, "number of channels");
    for (std::size_t c = 0; c < nc; ++c) { auto l = data(a)[0].channels[c], h = l; for (auto& p : data(a)) { l = std::min(l, p.channels[c]); h = std::max(h, p.channels[c]); } REQ(lo[c] == l && hi[c] == h, "channel " << c << " min " << +lo[c] << " max " << +hi[c] << " expected " << +l << ".." << +h); }
}
template<std::size_t N> static MultiChannel<double, N> gmc(Src& s) { MultiChannel<double, N> m; for (auto& c : m.channels) c = gd(s); return m; }
PROP(extremes_colour, "more than one pixel")
{
    Sz z = dims(s, 2, 2, 1, 5, true); s.nontrivial(prod(z) > 1); s.desc << str(z);
    switch (s.draw(4)) { case 0: chan_extremes(rgbimg(s, z)); break; case 1: chan_extremes(gen(s, z, [](Src& t) { RGB_DOUBLE p; for (auto& c : p.channels) c = gd(t); return p; })); break; case 2: chan_extremes(gen(s, z, [](Src& t) { HSV p; for (auto& c : p.channels) c = gd(t); return p; })); break; case 3: chan_extremes(gen(s, z, gmc<2>)); break; default: chan_extremes(gen(s, z, gmc<5>)); }
}
template<class T, class G> static void counting(Src& s, G gg)
{
    Sz z = dims(s, 1, 3, 1, 6, true); auto a = gen(s, z, gg); T t = s.flip() ? gg(s) : data(a)[s.draw(a.count() - 1)], u = gg(s); std::size_t n = 0; for (auto v : data(a)) n += v == t; s.desc << show(a, 12) << " target " << +t << " new " << +u; s.nontrivial(n > 0 && n < a.count());
    REQ(static_cast<std::size_t>(TinyDIP::count(a, t)) == n, "count " << TinyDIP::count(a, t) << " expected " << n); REQ(static_cast<std::size_t>(TinyDIP::count(std::execution::seq, a, t)) == n && static_cast<std::size_t>(TinyDIP::count(std::execution::par, a, t)) == n, "count with policy"); REQ(unique_value(a, t) == (n == 1), "unique_value");
    std::vector<T> w = data(a); for (auto& v : w) if (v == t) v = u; Image<T> want(w, z), orig = a; req_eq(TinyDIP::replace(a, t, u), want, "replace"); req_eq(TinyDIP::replace(std::execution::seq, a, t, u), want, "replace seq"); req_eq(TinyDIP::replace(std::execution::par, a, t, u), want, "replace par"); req_eq(TinyDIP::replace(std::execution::par_unseq, a, t, u), want, "replace par_unseq"); req_eq(a, orig, "input of replace");
}
PROP(counting_double, "some but not all pixels match") { counting<double>(s, [](Src& t) { return t.dyadic(1, 2); }); }
PROP(counting_byte, "some but not all pixels match") { counting<std::uint8_t>(s, [](Src& t) { return static_cast<std::uint8_t>(t.pick({0, 1, 255})); }); }
PROP(counting_int, "some but not all pixels match") { counting<int>(s, [](Src& t) { return static_cast<int>(t.sint(2)); }); }

template<class A, class B> static double euc(const A& a, const B& b) { long double q = 0; for (std::size_t i = 0; i < a.size(); ++i) { long double d = static_cast<long double>(a[i]) - static_cast<long double>(b[i]); q += d * d; } return static_cast<double>(std::sqrt(q)); }
template<class A, class B> static double man(const A& a, const B& b) { long double q = 0; for (std::size_t i = 0; i < a.size(); ++i) q += std::fabs(static_cast<long double>(a[i]) - static_cast<long double>(b[i])); return static_cast<double>(q); }
PROP(counting_word, "some but not all pixels match") { counting<std::uint16_t>(s, [](Src& t) { return static_cast<std::uint16_t>(t.pick({0, 1, 256, 257, 65535})); }); }
PROP(counting_float, "some but not all pixels match") { counting<float>(s, [](Src& t) { return static_cast<float>(t.dyadic(1, 2)); }); }
PROP(distance_gray, "same size, different content")
{
    Sz z = dims(s, 1, 3, 1, 5, true), y = s.chance(1, 4) ? dims(s, 1, 3, 1, 5, true) : z; auto a = dimg(s, z), b = dimg(s, y); auto ia = iimg(s, z), ib = iimg(s, y); auto ba = bimg(s, z), bb = bimg(s, y); s.desc << show(a, 6) << " " << show(b, 6); s.nontrivial(z == y && data(a) != data(b));
    if (z != y) { REQ(throws<std::runtime_error>([&] { manhattan_distance(a, b); }) && throws<std::runtime_error>([&] { euclidean_distance(a, b); }) && throws<std::runtime_error>([&] { euclidean_distance(std::execution::par, a, b); }) && throws<std::runtime_error>([&] { manhattan_distance(ba, bb); }) && throws<std::runtime_error>([&] { euclidean_distance(ba, ib); }), "sizes " << str(z) << " and " << str(y) << " accepted"); return; }
    auto ck = [&](double got, double want, const char* w) { REQ(close(got, want, 1e-12, 1e-12), w << " is " << got << " expected " << want); };
    ck(manhattan_distance(a, b), man(data(a), data(b)), "manhattan"); ck(manhattan_distance(ia, ib), man(data(ia), data(ib)), "manhattan int"); ck(manhattan_distance(ba, bb), man(data(ba), data(bb)), "manhattan byte");
    ck(euclidean_distance(a, b), euc(data(a), data(b)), "euclidean"); ck(euclidean_distance(std::execution::par, a, b), euc(data(a), data(b)), "euclidean par"); ck(euclidean_distance(ba, bb), euc(data(ba), data(bb)), "euclidean byte"); ck(euclidean_distance(ba, ib), euc(data(ba), data(ib)), "euclidean mixed"); ck(euclidean_distance(std::execution::par, ia, b), euc(data(ia), data(b)), "euclidean mixed par");
    ck(euclidean_distance(a, a), 0, "euclidean of itself"); ck(manhattan_distance(ba, ba), 0, "manhattan of itself");
}
template<class P, class Q> static void dcol(const Image<P>& a, const Image<Q>& b)
{
    std::size_t nc = std::size(P{}.channels); if (a.getSize() != b.getSize()) { REQ(throws<std::runtime_error>([&] { euclidean_distance(a, b); }) && throws<std::runtime_error>([&] { euclidean_distance(std::execution::par, a, b); }), "different sizes accepted"); return; }
    auto r = euclidean_distance(a, b), rp = euclidean_distance(std::execution::par, a, b); REQ(std::size(r.channels) == nc, "channels");
    for (std::size_t c = 0; c < nc; ++c) { std::vector<double> u, v; for (auto& p : data(a)) u.push_back(p.channels[c]); for (auto& p : data(b)) v.push_back(p.channels[c]); double w = euc(u, v); REQ(close(r.channels[c], w, 1e-12, 1e-12) && close(rp.channels[c], w, 1e-12, 1e-12), "channel " << c << " euclidean distance " << r.channels[c] << " expected " << w); }
    if constexpr (std::same_as<P, Q> && !is_MultiChannel<P>::value) { auto m = manhattan_distance(a, b); REQ(m.size() == nc, "channels"); for (std::size_t c = 0; c < nc; ++c) { std::vector<double> u, v; for (auto& p : data(a)) u.push_back(p.channels[c]); for (auto& p : data(b)) v.push_back(p.channels[c]); REQ(close(m[c], man(u, v), 1e-12, 1e-12), "channel " << c << " manhattan distance " << m[c] << " expected " << man(u, v)); } }
}
PROP(distance_colour, "same size")
{
    Sz z = dims(s, 2, 2, 1, 4, true), y = s.chance(1, 5) ? dims(s, 2, 2, 1, 4, true) : z; s.desc << str(z) << " " << str(y); s.nontrivial(z == y);
    auto rd = [](Src& t) { RGB_DOUBLE p; for (auto& c : p.channels) c = gd(t); return p; }; auto hs = [](Src& t) { HSV p; for (auto& c : p.channels) c = gd(t); return p; };
    switch (s.draw(5)) { case 0: dcol(rgbimg(s, z), rgbimg(s, y)); break; case 1: dcol(gen(s, z, rd), gen(s, y, rd)); break; case 2: dcol(gen(s, z, hs), gen(s, y, hs)); break; case 3: dcol(rgbimg(s, z), gen(s, y, rd)); break; case 4: dcol(gen(s, z, gmc<2>), gen(s, y, gmc<2>)); break; default: dcol(gen(s, z, gmc<4>), gen(s, y, gmc<4>)); }
}
PROP(distance_ranges, "equal lengths above one")
{
    std::size_t n = s.sz(0, 9), m = s.chance(1, 4) ? s.sz(0, 9) : n; std::vector<double> a(n), b(m); std::vector<std::complex<double>> c(n), d(m); std::vector<int> i(n); std::deque<int> j(m); for (auto& e : a) e = gd(s); for (auto& e : b) e = gd(s); for (auto& e : c) e = {gd(s), gd(s)}; for (auto& e : d) e = {gd(s), gd(s)}; for (auto& e : i) e = static_cast<int>(s.sint(100)); for (auto& e : j) e = static_cast<int>(s.sint(100));
    s.desc << n << " and " << m << " elements"; s.nontrivial(n == m && n > 1); squared_euclidean_distance f;
    if (n != m) { REQ(throws<std::runtime_error>([&] { f(a, b); }) && throws<std::runtime_error>([&] { f(std::execution::par, a, b); }) && throws<std::runtime_error>([&] { f(c, d); }) && throws<std::runtime_error>([&] { f(i, j); }) && throws<std::runtime_error>([&] { euclidean_distance(a, b); }) && throws<std::runtime_error>([&] { euclidean_distance(std::execution::seq, a, b); }), "lengths " << n << " and " << m << " accepted"); return; }
    double w = euc(a, b), wi = euc(i, j); long double q = 0; for (std::size_t k = 0; k < n; ++k) { long double re = c[k].real() - d[k].real(), im = c[k].imag() - d[k].imag(); q += re * re + im * im; } double wc = static_cast<double>(std::sqrt(q));
    auto ck = [&](double got, double want, const char* what) { REQ(close(got, want, 1e-11, 1e-12), what << " is " << got << " expected " << want); };
    ck(f(a, b), w * w, "squared"); ck(f(std::execution::par, a, b), w * w, "squared par"); ck(f(c, d), wc * wc, "squared complex"); ck(f(std::execution::par, c, d), wc * wc, "squared complex par"); ck(f(i, j), wi * wi, "squared int"); ck(f(std::execution::seq, i, j), wi * wi, "squared int policy");
    ck(euclidean_distance(a, b), w, "euclidean"); ck(euclidean_distance(std::execution::par, a, b), w, "euclidean par"); ck(euclidean_distance(c, d), wc, "euclidean complex"); ck(euclidean_distance(i, j), wi, "euclidean int"); ck(euclidean_distance(std::execution::par, c, d), wc, "euclidean complex par");
    std::array<int, 5> p, r; std::array<std::uint8_t, 5> pb, rb; for (auto& e : p) e = static_cast<int>(s.sint(1000)); for (auto& e : r) e = static_cast<int>(s.sint(1000)); for (auto& e : pb) e = gb(s); for (auto& e : rb) e = gb(s); ck(euclidean_distance(p, r), euc(p, r), "arrays"); ck(euclidean_distance(std::execution::par, p, r), euc(p, r), "arrays par"); ck(euclidean_distance(pb, rb), euc(pb, rb), "byte arrays");
}
