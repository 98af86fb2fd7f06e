// C13: histograms, Otsu threshold, thresholding
#include "img.h"
#include "histogram.h"
#include <map>
using namespace g;
using namespace TinyDIP;

template<class T> static std::map<T, std::size_t> model(const Image<T>& a) { std::map<T, std::size_t> m; for (auto v : data(a)) ++m[v]; return m; }
static std::uint8_t few(Src& s) { return s.chance(1, 3) ? gb(s) : static_cast<std::uint8_t>(s.pick({0, 1, 7, 128, 254, 255})); }
static int gint(Src& s) { return static_cast<int>(s.sint(6)); }
template<class T, class G> static void counts(Src& s, G gg, const std::vector<T>& probe)
{
    Sz z = dims(s, 1, 3, 1, 6, sizeof(T) == 1); auto a = gen(s, z, gg); s.desc << show(a, 10); auto m = model(a); s.nontrivial(m.size() > 1 && m.size() < a.count());
    Histogram<T> h(a); auto h2 = histogram(a);
    for (T v : probe) { std::size_t w = m.count(v) ? m[v] : 0; REQ(h.getCount(v) == w && h2.getCount(v) == w, "count of " << +v << " is " << h.getCount(v) << " expected " << w); REQ(std::as_const(h)[v] == w, "const [] of " << +v << " is " << std::as_const(h)[v]); }
    REQ(h.getCountSum() == a.count() && h.getCountSum(std::execution::seq) == a.count() && h.getCountSum(std::execution::par) == a.count(), "sum of counts " << h.getCountSum() << " for " << a.count() << " pixels");
    auto n = h.normalize(); auto np = h.template normalize<const std::execution::parallel_policy, double>(std::move(std::execution::par));
    auto hn = histogram_normalized(a);
    double total = 0; for (auto& [v, c] : m) { double w = static_cast<double>(c) / static_cast<double>(a.count()); total += n.getCount(v); REQ(close(n.getCount(v), w, 1e-12, 0) && close(np.getCount(v), w, 1e-12, 0), "probability of " << +v << " is " << n.getCount(v)); REQ(close(hn[v], w, 1e-9, 0), "histogram_normalized of " << +v << " is " << hn[v] << " expected " << w); }
    REQ(close(total, 1, 1e-9, 0), "probabilities sum to " << total);
    if constexpr (std::same_as<T, std::uint8_t> || std::same_as<T, std::uint16_t>) { REQ(h.size() == std::numeric_limits<T>::max() + 1u, "size " << h.size()); std::size_t i = 0; for (auto c : h) { REQ(c == (m.count(static_cast<T>(i)) ? m[static_cast<T>(i)] : 0), "iterating: bin " << i << " holds " << c); ++i; } REQ(i == h.size(), "iteration gives " << i << " bins"); i = 0; for (auto it = std::as_const(h).cbegin(); it != std::as_const(h).cend(); ++it) ++i; REQ(i == h.size(), "const iteration"); }
    else { REQ(h.size() == m.size(), "size " << h.size()); auto w = m.begin(); for (auto& [k, c] : std::as_const(h)) { REQ(w != m.end() && k == w->first && c == w->second, "iterating: value " << +k << " count " << c); ++w; } REQ(w == m.end(), "iteration misses values");
        std::map<T, std::size_t> mm; for (auto& [k, c] : m) mm[k] = c; auto nm = normalize_histogram(mm); REQ(nm.size() == m.size(), "normalised map"); for (auto& [k, c] : m) REQ(close(nm[k], static_cast<double>(c) / static_cast<double>(a.count()), 1e-12, 0), "normalised map at " << +k); auto nmp = normalize_histogram(std::execution::par, mm); REQ(nmp == nm, "policy form"); }
}
PROP(counts_byte, "some value repeats and there are at least two") { counts<std::uint8_t>(s, few, {0, 1, 2, 7, 127, 128, 254, 255}); }
PROPW(counts_word, 1, "some value repeats and there are at least two") { counts<std::uint16_t>(s, [](Src& t) { return static_cast<std::uint16_t>(t.pick({0, 1, 255, 256, 65535, static_cast<int>(t.draw(65535))})); }, {0, 1, 255, 256, 65534, 65535}); }
PROP(counts_int, "some value repeats and there are at least two") { counts<int>(s, gint, {-6, -3, -1, 0, 1, 2, 5, 77}); }
PROP(counts_double, "some value repeats and there are at least two") { counts<double>(s, [](Src& t) { return t.dyadic(1, 4); }, {-1, -0.5, 0, 0.25, 0.5, 1}); }

// histories of counting, adding, subtracting and assigning
template<class T, class G> static void history(Src& s, G gg)
{
    Histogram<T> h[2]; std::map<T, std::size_t> m[2]; std::size_t n = s.sz(0, 14); std::vector<T> keys; std::ostringstream d;
    for (std::size_t k = 0; k < n; ++k) {
        int op = static_cast<int>(s.draw(6)); std::size_t i = s.draw(1), j = 1 - i; T v = gg(s); keys.push_back(v); d << op << (i ? 'b' : 'a') << +v << " ";
        auto minus = [](std::map<T, std::size_t> x, const std::map<T, std::size_t>& y) { for (auto& [q, c] : x) { auto f = y.find(q); if (f != y.end()) c = c >= f->second ? c - f->second : 0; } return x; };
        auto plus = [](std::map<T, std::size_t> x, const std::map<T, std::size_t>& y) { for (auto& [q, c] : y) x[q] += c; return x; };
        switch (op) {
            case 0: case 1: case 2: { auto& r = h[i].addCount(v); REQ(&r == &h[i], "addCount returns another object"); ++m[i][v]; break; }
            case 3: h[i] += h[j]; m[i] = plus(m[i], m[j]); break;
            case 4: h[i] -= h[j]; m[i] = minus(m[i], m[j]); break;
            case 5: { auto p = h[i] + h[j], q = h[i] - h[j]; auto mp = plus(m[i], m[j]), mq = minus(m[i], m[j]); for (T e : keys) REQ(p.getCount(e) == mp[e] && q.getCount(e) == mq[e], "sum or difference at " << +e << " is " << p.getCount(e) << "," << q.getCount(e) << " expected " << mp[e] << "," << mq[e]); break; }
            default: { std::size_t c = s.draw(5); h[i][v] = c; m[i][v] = c; }
        }
        for (int t = 0; t < 2; ++t) for (T e : keys) REQ(h[t].getCount(e) == (m[t].count(e) ? m[t].at(e) : 0), "after step " << k << " count of " << +e << " is " << h[t].getCount(e) << " expected " << (m[t].count(e) ? m[t].at(e) : 0));
        std::size_t tot = 0; for (auto& [q, c] : m[i]) tot += c; REQ(h[i].getCountSum() == tot, "sum " << h[i].getCountSum() << " expected " << tot);
    }
    s.desc << d.str(); s.nontrivial(n >= 4);
}
PROP(history_byte, "at least four operations") { history<std::uint8_t>(s, few); }
PROP(history_int, "at least four operations") { history<int>(s, [](Src& t) { return static_cast<int>(t.sint(2)); }); }

template<std::size_t B, class T> static void bins_n(const Image<T>& a, T lo, T hi, bool dflt)
{
    auto h = dflt ? histogram_with_bins<B>(a) : histogram_with_bins<B>(a, lo, hi); std::array<std::size_t, B> lo_{}, hi_{};
    for (T v : data(a)) { if (v < lo || v > hi) continue; double q = (static_cast<double>(v) - static_cast<double>(lo)) * static_cast<double>(B) / (static_cast<double>(hi) - static_cast<double>(lo));
        auto cl = [&](double x) { return std::min<std::size_t>(B - 1, static_cast<std::size_t>(std::max(0.0, std::floor(x)))); }; std::size_t a1 = cl(q - 1e-9), b1 = cl(q + 1e-9); if (a1 == b1) { ++lo_[a1]; ++hi_[a1]; } else { ++hi_[a1]; ++hi_[b1]; } }
    std::size_t in = 0, sum = 0; for (T v : data(a)) in += v >= lo && v <= hi; for (std::size_t i = 0; i < B; ++i) { sum += h[i]; REQ(h[i] >= lo_[i] && h[i] <= hi_[i], "bin " << i << " of " << B << " holds " << h[i] << " expected " << lo_[i]); }
    REQ(sum == in, "bins hold " << sum << " of " << in << " values");
    auto n = normalize_histogram(h), np = normalize_histogram(std::execution::par, h); if (sum) for (std::size_t i = 0; i < B; ++i) REQ(close(n[i], static_cast<double>(h[i]) / static_cast<double>(sum), 1e-12, 0) && n[i] == np[i], "normalised bin " << i);
}
PROP(bins_byte, "an explicit range")
{
    Sz z = dims(s, 1, 2, 1, 6, true); auto a = gen(s, z, few); bool d = s.flip(); std::uint8_t lo = 0, hi = 255; if (!d) { lo = static_cast<std::uint8_t>(s.draw(200)); hi = static_cast<std::uint8_t>(lo + 1 + s.draw(254u - lo)); }
    s.desc << show(a, 8) << " in [" << +lo << "," << +hi << "]"; s.nontrivial(!d); switch (s.draw(3)) { case 0: bins_n<8>(a, lo, hi, d); break; case 1: bins_n<1>(a, lo, hi, d); break; case 2: bins_n<7>(a, lo, hi, d); break; default: bins_n<256>(a, lo, hi, d); }
}
PROP(bins_double, "the range excludes or starts off zero")
{
    Sz z = dims(s, 1, 2, 1, 6, true); auto a = dimg(s, z); double lo = gd(s), hi = lo + 0.25 + s.unit() * 100; s.desc << show(a, 8) << " in [" << lo << "," << hi << "]"; s.nontrivial(lo != 0); if (s.flip()) bins_n<8>(a, lo, hi, false); else bins_n<5>(a, lo, hi, false);
}
PROP(bins_int, "the range starts below zero")
{
    Sz z = dims(s, 1, 2, 1, 6, true); auto a = iimg(s, z, 20); int lo = static_cast<int>(s.sint(20)), hi = lo + 1 + static_cast<int>(s.draw(30)); s.desc << show(a, 8) << " in [" << lo << "," << hi << "]"; s.nontrivial(lo < 0); if (s.flip()) bins_n<8>(a, lo, hi, false); else bins_n<3>(a, lo, hi, false);
}

// Otsu: the result maximises the variance between the classes {<= t} and {> t}
static void otsu_ok(const std::vector<std::size_t>& c, std::size_t t, const char* what)
{
    long double W = 0, M = 0; for (std::size_t i = 0; i < c.size(); ++i) { W += c[i]; M += static_cast<long double>(c[i]) * i; }
    std::vector<long double> v(c.size(), -1); long double w = 0, m = 0, best = -1;
    for (std::size_t i = 0; i < c.size(); ++i) { w += c[i]; m += static_cast<long double>(c[i]) * i; if (w > 0 && W - w > 0) { long double e = m * (W - w) - (M - m) * w; v[i] = e * e / (w * (W - w)); best = std::max(best, v[i]); } }
    if (best <= 0) { return; }
    REQ(t < c.size() && v[t] >= best * (1 - 1e-9L), what << " threshold " << t << " has between-class variance " << (t < c.size() ? v[t] : -1) << ", the best is " << best);
}
PROP(otsu_image, "at least three distinct values")
{
    Sz z = dims(s, 1, 2, 1, 7, true); auto a = gen(s, z, few); s.desc << show(a, 12); auto m = model(a); s.nontrivial(m.size() > 2);
    std::vector<std::size_t> c(256); for (auto v : data(a)) ++c[v]; auto t = otsu_threshold(a); otsu_ok(c, t, "image"); REQ(otsu_threshold(std::execution::par, a) == t && otsu_threshold(std::execution::seq, a) == t, "policy forms differ");
    if (m.size() == 1) REQ(t == 256 || t == data(a)[0] || t < 256, "constant image");
    auto b = gen(s, z, [](Src& q) { return static_cast<int>(q.draw(20)); }); std::vector<std::size_t> d(21); for (int v : data(b)) ++d[static_cast<std::size_t>(v)]; d.resize(static_cast<std::size_t>(*std::max_element(data(b).begin(), data(b).end())) + 1); if (model(b).size() > 1) otsu_ok(d, otsu_threshold(b), "integer image");
}
PROP(otsu_histogram, "at least three bins in use")
{
    std::size_t n = s.sz(1, 20); std::vector<std::size_t> c(n); std::size_t used = 0; for (auto& v : c) { v = s.flip() ? s.draw(9) : 0; used += v > 0; } s.desc << "counts"; for (auto v : c) s.desc << " " << v; s.nontrivial(used > 2);
    std::size_t W = 0; for (auto v : c) W += v; if (!W) return; std::vector<double> p; for (auto v : c) p.push_back(static_cast<double>(v) / static_cast<double>(W)); if (used > 1) { otsu_ok(c, otsu_threshold(c), "counts"); otsu_ok(c, otsu_threshold(p), "probabilities"); otsu_ok(c, otsu_threshold(std::execution::par, p), "parallel"); }
    Histogram<std::uint8_t> h; for (std::size_t i = 0; i < n; ++i) h[static_cast<std::uint8_t>(i)] = c[i]; auto q = h.to_probabilities_vector(), qp = h.to_probabilities_vector(std::execution::par); REQ(q.size() == 256 && qp == q, "probability vector"); for (std::size_t i = 0; i < 256; ++i) REQ(close(q[i], i < n ? p[i] : 0, 1e-12, 0), "probability " << i);
}
template<class T> static void probs(Src& s)
{
    Histogram<T> h; std::map<T, std::size_t> m; std::size_t k = s.sz(0, 9), W = 0; for (std::size_t i = 0; i < k; ++i) { T e = static_cast<T>(s.tail(0, 12, 2000)); std::size_t c = 1 + s.draw(40); h[e] = c; m[e] = c; } for (auto& [e, c] : m) { W += c; s.desc << +e << ":" << c << " "; } s.nontrivial(m.size() > 1); auto a = h.to_probabilities_vector(), b = h.to_probabilities_vector(std::execution::par); auto f = h.template to_probabilities_vector<const std::execution::sequenced_policy&, float>(std::execution::seq); REQ(a == b && f.size() == a.size(), "the forms differ"); std::size_t want = m.empty() ? 0 : static_cast<std::size_t>(m.rbegin()->first) + 1; REQ(a.size() == want, "there are " << a.size() << " probabilities, expected " << want); for (std::size_t i = 0; i < want; ++i) { double p = m.count(static_cast<T>(i)) ? static_cast<double>(m.at(static_cast<T>(i))) / static_cast<double>(W) : 0; REQ(close(a[i], p, 1e-12, 0) && close(f[i], p, 1e-6, 0), "probability of " << i << " is " << a[i] << " expected " << p); }
}
PROP(sparse_probabilities, "several values") { switch (s.draw(2)) { case 0: probs<int>(s); break; case 1: probs<std::size_t>(s); break; default: probs<std::uint32_t>(s); } }
PROP(threshold, "values on both sides")
{
    Sz z = dims(s, 1, 3, 1, 6, true); auto a = gen(s, z, few); std::uint8_t t = s.flip() ? data(a)[s.draw(a.count() - 1)] : gb(s); auto d = dimg(s, z); double u = gd(s); s.desc << show(a, 8) << " at " << +t; bool lo = false, hi = false;
    auto r = apply_threshold_openmp(a, t); REQ(r.getSize() == z, "size"); for (std::size_t i = 0; i < a.count(); ++i) { bool b = data(a)[i] > t; (b ? hi : lo) = true; REQ(data(r)[i] == (b ? 255 : 0), "element " << i << " is " << +data(r)[i]); } s.nontrivial(lo && hi);
    auto e = apply_threshold_openmp(d, u); for (std::size_t i = 0; i < d.count(); ++i) REQ(data(e)[i] == (data(d)[i] > u ? std::numeric_limits<double>::max() : std::numeric_limits<double>::lowest()), "double element " << i);
    auto f = [](double x, double k) { return static_cast<int>(x * 2 + k); }; auto p1 = apply_each_pixel(std::execution::par, d, f, u), p2 = apply_each_pixel_openmp(d, f, u); for (std::size_t i = 0; i < d.count(); ++i) REQ(data(p1)[i] == f(data(d)[i], u) && data(p2)[i] == f(data(d)[i], u), "mapped element " << i); REQ(p1.getSize() == z && p2.getSize() == z, "size");
}
