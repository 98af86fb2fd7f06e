// C20: algorithms on nested containers, statistics and small helpers of basic_functions.h
#include "img.h"
#include <deque>
#include <list>
#include <map>
#include <atomic>
using namespace g;
using namespace TinyDIP;
typedef long double L;
template<class T> using V1 = std::vector<T>;
template<class T> using V2 = std::vector<std::vector<T>>;
template<class T> using V3 = std::vector<V2<T>>;

static int gi(Src& s) { return static_cast<int>(s.sint(4)); }
static std::size_t len(Src& s) { if (s.draw(299) == 299) return 250 + s.draw(300); return s.chance(1, 5) ? 0 : s.sz(1, 4); }
static V1<int> g1(Src& s) { V1<int> v(len(s)); for (auto& e : v) e = gi(s); return v; }
static V2<int> g2(Src& s) { V2<int> v(len(s)); for (auto& e : v) e = g1(s); return v; }
static V3<int> g3(Src& s) { V3<int> v(len(s)); for (auto& e : v) e = g2(s); return v; }
static void flat(const V1<int>& v, V1<int>& o) { o.insert(o.end(), v.begin(), v.end()); }
template<class T> static void flat(const std::vector<T>& v, V1<int>& o) { for (auto& e : v) flat(e, o); }
static std::string sh(int v) { return std::to_string(v); }
template<class T> static std::string sh(const std::vector<T>& v) { std::string o = "{"; for (auto& e : v) { if (o.size() > 1) o += ","; o += sh(e); } return o + "}"; }
template<class T, class F> static auto mapd(const T& v, F f) { if constexpr (std::is_same_v<T, int>) return f(v); else { std::vector<decltype(mapd(v[0], f))> o; for (auto& e : v) o.push_back(mapd(e, f)); return o; } }
template<class P> static V1<int> keep(const V1<int>& v, P p) { V1<int> o; for (auto e : v) if (p(e)) o.push_back(e); return o; }
template<class T, class P> static std::vector<T> keep(const std::vector<T>& v, P p) { std::vector<T> o; for (auto& e : v) o.push_back(keep(e, p)); return o; }

template<std::size_t D, class N> static void level(Src& s, const N& v)
{
    V1<int> f; flat(v, f); int t = f.empty() || s.chance(1, 4) ? gi(s) : f[s.draw(f.size() - 1)]; int th = gi(s); s.desc << sh(v) << " target " << t << " threshold " << th; s.nontrivial(f.size() > 1);
    auto p = [th](int x) { return x > th; }; auto pr = [](int x) { return -2 * x + 1; }; bool all = true, any = false, fnd = false, fpr = false, allp = true, anyp = false; std::size_t cnt = 0, cntp = 0; for (int x : f) { all &= p(x); any |= p(x); fnd |= x == t; fpr |= pr(x) == t; allp &= p(pr(x)); anyp |= p(pr(x)); cnt += x == t; cntp += p(x); }
    REQ(recursive_all_of<D>(v, p) == all, "recursive_all_of"); REQ(recursive_any_of<D>(v, p) == any, "recursive_any_of"); REQ(recursive_none_of<D>(v, p) == !any, "recursive_none_of"); REQ(recursive_find_if<D>(v, p) == any, "recursive_find_if"); REQ(recursive_all_of<D>(v, p, pr) == allp, "recursive_all_of with a projection"); REQ(recursive_any_of<D>(v, p, pr) == anyp && recursive_find_if<D>(v, p, pr) == anyp && recursive_none_of<D>(v, p, pr) == !anyp, "recursive_any_of with a projection");
    REQ(recursive_find<D>(v, t) == fnd, "recursive_find"); REQ(recursive_find<D>(v, t, pr) == fpr, "recursive_find with a projection"); REQ(recursive_find<D>(std::execution::seq, v, t) == fnd && recursive_find<D>(std::execution::par, v, t) == fnd, "recursive_find with a policy"); REQ(recursive_find<D>(std::execution::par, v, t, pr) == fpr, "recursive_find with a policy and a projection");
    REQ(static_cast<std::size_t>(recursive_count<D>(v, t)) == cnt, "recursive_count is " << recursive_count<D>(v, t) << " expected " << cnt); REQ(static_cast<std::size_t>(recursive_count<std::execution::parallel_policy, D>(std::execution::par, v, t)) == cnt, "recursive_count with a policy");
    REQ(static_cast<std::size_t>(recursive_count_if<D>(v, p)) == cntp, "recursive_count_if of a level"); REQ(recursive_count_if(v, p) == cntp && recursive_count_if(std::execution::par, v, p) == cntp, "recursive_count_if is " << recursive_count_if(v, p) << " expected " << cntp); auto bc = batch_recursive_count_if<D>(v, p, [t](int x) { return x == t; }, [](int) { return true; }); REQ(bc.size() == 3 && static_cast<std::size_t>(bc[0]) == cntp && static_cast<std::size_t>(bc[1]) == cnt && static_cast<std::size_t>(bc[2]) == f.size(), "batch_recursive_count_if"); REQ(recursive_copy_if(v, p) == keep(v, p), "recursive_copy_if down to the elements");
    L sum = 0; for (int x : f) sum += x; REQ(recursive_reduce<D>(v, 5) == static_cast<int>(sum) + 5, "recursive_reduce"); int h = 3, hr = 3; for (int x : f) h = (h * 7 + x) % 10007; REQ((recursive_reduce<D>(v, 3, [](int a, int x) { return (a * 7 + x) % 10007; })) == h, "recursive_reduce in order"); for (auto i = f.rbegin(); i != f.rend(); ++i) hr = (hr * 7 + *i) % 10007; REQ((recursive_fold_right_all(v, 3, [](int x, int a) { return (a * 7 + x) % 10007; })) == hr, "recursive_fold_right_all");
    REQ(recursive_size(v) == f.size(), "recursive_size is " << recursive_size(v) << " expected " << f.size()); REQ(recursive_depth<N>() == D, "recursive_depth"); REQ((recursive_depth<V1<int>, N>() == D - 1), "recursive_depth down to a type");
    V1<int> seen; auto vc = v; auto see = [&seen](int x) { seen.push_back(x); }; recursive_for_each<D>(see, vc); REQ(seen == f, "recursive_for_each visits " << sh(seen)); seen.clear(); recursive_reverse_foreach_all(vc, see); REQ(seen == V1<int>(f.rbegin(), f.rend()), "recursive_reverse_foreach_all visits " << sh(seen)); seen.clear(); { std::mutex m; auto lock = [&](int x) { std::lock_guard l(m); seen.push_back(x); }; recursive_for_each<D>(std::execution::par, lock, vc); } std::sort(seen.begin(), seen.end()); auto sf = f; std::sort(sf.begin(), sf.end()); REQ(seen == sf, "recursive_for_each with a policy visits " << sh(seen)); REQ(vc == v, "the input changes");
    auto np = [p](int x) { return !p(x); }; REQ(recursive_copy_if<D>(v, p) == keep(v, p), "recursive_copy_if"); REQ(recursive_remove_copy_if<D>(v, p) == keep(v, np), "recursive_remove_copy_if"); REQ(recursive_remove_copy<D>(v, t) == keep(v, [t](int x) { return x != t; }), "recursive_remove_copy"); REQ(recursive_replace_copy_if<D>(v, p, 99) == mapd(v, [&](int x) { return p(x) ? 99 : x; }), "recursive_replace_copy_if");
    REQ(recursive_remove_copy_if<D>(std::execution::seq, v, p) == keep(v, np), "recursive_remove_copy_if with a policy"); REQ(recursive_remove_copy<D>(std::execution::seq, v, t) == keep(v, [t](int x) { return x != t; }), "recursive_remove_copy with a policy");
    auto dbl = [](int x) { return x * 0.5; }; REQ(recursive_transform<D>(dbl, v) == mapd(v, dbl), "recursive_transform"); std::atomic<std::size_t> calls{0}; auto cd = [&](int x) { ++calls; return x * 0.5; }; REQ(recursive_transform<D>(std::execution::par, cd, v) == mapd(v, dbl), "recursive_transform with a policy"); REQ(calls == f.size(), "recursive_transform with a policy calls its function " << calls << " times for " << f.size() << " elements"); REQ(recursive_transform<D>(std::execution::seq, dbl, v) == mapd(v, dbl), "recursive_transform sequentially");
    auto w = mapd(v, [](int x) { return x * x - 3; }); auto two = [](int a, int b) { return 10 * a - b; }; REQ(recursive_transform<D>(two, v, w) == mapd(v, [&](int x) { return two(x, x * x - 3); }), "recursive_transform of two"); auto thr = [](int a, int b, int c) { return 100 * a + 10 * b - c; }; REQ(recursive_transform<D>(thr, v, w, v) == mapd(v, [&](int x) { return thr(x, x * x - 3, x); }), "recursive_transform of three");
    auto sq = [](int x) { return 3 * x * x + x; }; int ts = 7; for (int x : f) ts += sq(x); REQ(recursive_transform_reduce(v, 7, sq) == ts, "recursive_transform_reduce is " << recursive_transform_reduce(v, 7, sq) << " expected " << ts); REQ(recursive_transform_reduce(std::execution::par, v, 7, sq, std::plus<int>{}) == ts, "recursive_transform_reduce with a policy"); REQ(recursive_transform_reduce<D>(v, 7, sq) == ts, "recursive_transform_reduce of a level"); REQ(recursive_transform_reduce<D>(std::execution::par, v, 7, sq) == ts, "recursive_transform_reduce of a level with a policy"); REQ(recursive_transform_reduce<D>(v, 1) == static_cast<int>(sum) + 1, "recursive_transform_reduce without function");
    if constexpr (D > 1) { V1<int> o{42}; auto r = recursive_flatten<D>(v, o); V1<int> e{42}; flat(v, e); REQ(r == e && o == e, "recursive_flatten gives " << sh(r)); V1<int> q; for (auto&& x : recursive_flatten_view<D>(v)) q.push_back(x); REQ(q == f, "recursive_flatten_view gives " << sh(q)); } else { V1<int> o{42}; recursive_flatten<1>(v, o); V1<int> e{42}; flat(v, e); REQ(o == e, "recursive_flatten"); }
    if (!f.empty()) { auto mm = [&] { if constexpr (D > 1) { auto r = recursive_minmax<D>(v); return std::pair<int, int>(r.min, r.max); } else { auto r = recursive_minmax(v); return std::pair<int, int>(r.min, r.max); } }(); REQ(mm.first == sf.front() && mm.second == sf.back(), "recursive_minmax"); }
    std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); recursive_print(v); std::cout.rdbuf(old); std::istringstream in(o.str()); std::string line; V1<int> pv; while (std::getline(in, line)) if (line.find("Level") == std::string::npos) { REQ(line.size() > D && line.find_first_not_of(' ') == D, "printed indentation '" << line << "'"); pv.push_back(std::stoi(line)); } REQ(pv == f, "recursive_print lists " << sh(pv));
}
PROP(nested_1, "more than one element") { level<1>(s, g1(s)); }
PROPW(nested_2, 2, "more than one element") { level<2>(s, g2(s)); }
PROPW(nested_3, 2, "more than one element") { level<3>(s, g3(s)); }

PROP(extremes, "more than one element")
{
    V3<int> v(s.tail(1, 3, 90)); V1<int> f; for (auto& a : v) { a.resize(s.tail(1, 3, 90)); for (auto& b : a) { b.resize(s.tail(1, 3, 90)); for (auto& e : b) { e = static_cast<int>(s.sint(50)); f.push_back(e); } } } s.desc << sh(v); s.nontrivial(f.size() > 1);
    REQ(recursive_max(v) == *std::max_element(f.begin(), f.end()) && recursive_min(v) == *std::min_element(f.begin(), f.end()), "recursive_max/min"); REQ(recursive_max(v[0][0]) == *std::max_element(v[0][0].begin(), v[0][0].end()) && recursive_min(v[0][0]) == *std::min_element(v[0][0].begin(), v[0][0].end()), "recursive_max/min of a list");
    auto g = v[0][0]; REQ(recursive_max(g, std::ranges::greater{}) == *std::min_element(g.begin(), g.end()) && recursive_min(g, std::ranges::greater{}) == *std::max_element(g.begin(), g.end()), "recursive_max/min with an order"); std::deque<int> dq(g.begin(), g.end()); REQ(recursive_max(dq) == *std::max_element(g.begin(), g.end()), "recursive_max of a deque");
    V1<int> e; REQ(throws_any([&] { (void)recursive_max(e); }) && throws_any([&] { (void)recursive_min(e); }), "extreme of nothing"); REQ(recursive_max(3) == 3 && recursive_min(3) == 3, "extreme of a number");
    REQ(recursive_size<1>(v) == v.size() && recursive_size<2>(v) == v[0].size() && recursive_size<3>(v) == v[0][0].size(), "recursive_size of a level"); auto mg = recursive_minmax(g, std::ranges::greater{}); REQ(mg.min == *std::max_element(g.begin(), g.end()) && mg.max == *std::min_element(g.begin(), g.end()), "recursive_minmax with an order"); auto mp = recursive_minmax(g, std::ranges::less{}, [](int x) { return -x; }); REQ(mp.min == *std::max_element(g.begin(), g.end()) && mp.max == *std::min_element(g.begin(), g.end()), "recursive_minmax with a projection");
}
template<class T> static void stats(Src& s, bool integral)
{
    std::vector<T> v(s.draw(59) == 59 ? 250 + s.draw(900) : s.sz(0, 12)); double scale = s.flip() ? 1 : 1000; for (auto& e : v) e = static_cast<T>(integral ? static_cast<double>(s.sint(100)) : s.real(-1, 1) * scale); if (s.chance(1, 5)) for (auto& e : v) e = v[0]; s.desc << v.size() << " values, first " << (v.empty() ? 0.0 : static_cast<double>(v[0])); s.nontrivial(v.size() > 1);
    if (v.empty()) { REQ(throws<std::logic_error>([&] { (void)arithmetic_mean(v); }) && throws<std::logic_error>([&] { (void)population_variance(v); }) && throws<std::logic_error>([&] { (void)population_standard_deviation(v); }) && throws<std::logic_error>([&] { (void)population_variance(std::execution::seq, v); }), "statistics of nothing"); REQ(square_sum(v) == 0, "square sum of nothing"); return; }
    L n = static_cast<L>(v.size()), sum = 0, ss = 0, mx = 0; for (auto e : v) { sum += e; ss += L(e) * e; mx = std::max(mx, std::fabs(L(e))); } L m = sum / n, var = 0; for (auto e : v) var += (L(e) - m) * (L(e) - m); var /= n; double at = static_cast<double>(mx) * 1e-12 + 1e-15, at2 = static_cast<double>(mx * mx) * 1e-11 + 1e-15; if (sizeof(T) == 4 && !integral) { at = static_cast<double>(mx) * 1e-6 + 1e-9; at2 = static_cast<double>(mx * mx) * 1e-5 + 1e-9; }
    auto ok = [&](double a, L b, double tol, const char* w) { REQ(std::fabs(a - static_cast<double>(b)) <= tol, w << " is " << a << " expected " << static_cast<double>(b)); }; ok(static_cast<double>(arithmetic_mean(v)), m, at, "mean"); ok(population_variance(v), var, at2, "variance"); ok(population_variance(std::execution::seq, v), var, at2, "variance, seq"); ok(population_variance(std::execution::par, v), var, at2, "variance, par"); double sd = static_cast<double>(std::sqrt(var)), st = at2 / std::max(sd, std::sqrt(at2)) + at; ok(population_standard_deviation(v), sd, st, "standard deviation"); ok(population_standard_deviation(std::execution::seq, v), sd, st, "standard deviation, seq");
    ok(square_sum(v), ss, static_cast<double>(ss) * 1e-12, "square sum"); ok(square_sum(std::execution::par, v), ss, static_cast<double>(ss) * 1e-12, "square sum, par"); ok(root_mean_square(v), std::sqrt(ss / n), static_cast<double>(std::sqrt(ss)) * 1e-12, "root mean square"); ok(root_mean_square(std::execution::par, v), std::sqrt(ss / n), static_cast<double>(std::sqrt(ss)) * 1e-12, "root mean square, par");
    std::vector<std::vector<T>> nested; for (std::size_t i = 0; i < v.size();) { std::size_t k = std::min(v.size() - i, s.sz(1, 4)); nested.emplace_back(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i + k)); i += k; } ok(square_sum(nested), ss, static_cast<double>(ss) * 1e-12, "square sum of a nested list"); ok(root_mean_square(nested), std::sqrt(ss / n), static_cast<double>(std::sqrt(ss)) * 1e-12, "root mean square of a nested list");
}
PROP(statistics_double, "more than one value") { stats<double>(s, false); }
PROP(statistics_int, "more than one value") { stats<int>(s, true); }
PROP(statistics_float, "more than one value") { stats<float>(s, false); }

PROP(two_inputs, "more than one pair")
{
    V1<int> a = g1(s), b(a.size()); for (auto& e : b) e = gi(s); if (s.chance(1, 4)) b.push_back(1); int init = gi(s); s.desc << sh(a) << " and " << sh(b) << " from " << init; s.nontrivial(a.size() > 1 && a.size() == b.size()); if (a.size() != b.size()) { REQ(throws<std::runtime_error>([&] { (void)two_input_map_reduce(std::execution::seq, a, b, init); }) && throws<std::runtime_error>([&] { (void)two_input_map_reduce(std::execution::seq, b, a, init); }), "different sizes accepted"); return; }
    int d = init, m = init; for (std::size_t i = 0; i < a.size(); ++i) { d += a[i] - b[i]; m += a[i] * b[i]; } REQ(two_input_map_reduce(std::execution::seq, a, b, init) == d && two_input_map_reduce(std::execution::par, a, b, init) == d, "sum of differences is " << two_input_map_reduce(std::execution::seq, a, b, init) << " expected " << d); REQ(two_input_map_reduce(std::execution::par, a, b, init, std::multiplies<int>{}, std::plus<int>{}) == m, "sum of products");
    int mx = init; for (std::size_t i = 0; i < a.size(); ++i) mx = std::max(mx, 3 * a[i] - b[i]); REQ(two_input_map_reduce(std::execution::seq, a, b, init, [](int x, int y) { return 3 * x - y; }, [](int x, int y) { return std::max(x, y); }) == mx, "largest combination");
}
PROP(element_sums, "more than one tuple")
{
    std::size_t n = s.sz(0, 9); std::vector<std::pair<int, double>> p; std::vector<std::tuple<int, double, long>> t; std::map<int, double> m; int f = 0; double d = 0; long l = 0; for (std::size_t i = 0; i < n; ++i) { int a = gi(s); double b = s.dyadic(8, 4); long c = static_cast<long>(s.sint(1000)); p.emplace_back(a, b); t.emplace_back(a, b, c); m[a] = b; f += a; d += b; l += c; } s.desc << n << " tuples"; s.nontrivial(n > 1);
    REQ(sum_first_element(p) == f && sum_first_element(std::execution::par, p) == f && sum_first_element(std::execution::seq, p) == f, "sum_first_element"); REQ(sum_second_element(p) == d && sum_second_element(std::execution::par, p) == d && sum_second_element(std::execution::seq, p) == d, "sum_second_element"); int mk = 0; double mv = 0; for (auto& [k, v] : m) { mk += k; mv += v; } REQ(sum_first_element(m) == mk && sum_second_element(m) == mv, "sums over a map");
    REQ(sum_n_th_element<0>(t) == f && sum_n_th_element<1>(t) == d && sum_n_th_element<2>(t) == l && sum_n_th_element<2>(std::execution::par, t) == l && sum_n_th_element<1>(std::execution::seq, t) == d, "sum_n_th_element"); REQ(sum_n_th_element<2>(t, 5L) == l + 5 && sum_n_th_element<2>(std::execution::par, t, 5L) == l + 5, "sum_n_th_element from an initial value"); auto mxf = [](int a, int b) { return std::max(a, b); }; int w = 0; for (auto& [a, b] : p) w = std::max(w, a); REQ(sum_first_element(p, mxf) == w && sum_first_element(std::execution::par, p, mxf) == w, "sum_first_element with a function"); auto mn = [](double a, double b) { return std::min(a, b); }; double wn = 0; for (auto& [a, b] : p) wn = std::min(wn, b); REQ(sum_second_element(p, mn) == wn && sum_second_element(std::execution::par, p, mn) == wn, "sum_second_element with a function");
}
PROP(generators, "more than one element")
{
    std::size_t n = s.sz(0, 4); int x = gi(s); s.desc << n << " times " << x; s.nontrivial(n > 1); V3<int> w(n, V2<int>(n, V1<int>(n, x))); REQ(n_dim_vector_generator<3>(x, n) == w && n_dim_vector_generator<1>(x, n) == V1<int>(n, x) && n_dim_vector_generator<0>(x, n) == x, "n_dim_vector_generator"); REQ((n_dim_container_generator<3, int, std::vector>(x, n) == w), "n_dim_container_generator");
    auto dq = n_dim_deque_generator<2>(x, n); REQ(dq == std::deque<std::deque<int>>(n, std::deque<int>(n, x)), "n_dim_deque_generator"); auto li = n_dim_list_generator<2>(x, n); REQ(li == std::list<std::list<int>>(n, std::list<int>(n, x)), "n_dim_list_generator"); auto ar = n_dim_array_generator<2, 3>(x); for (auto& r : ar) for (auto e : r) REQ(e == x, "n_dim_array_generator"); REQ(ar.size() == 3 && ar[0].size() == 3, "n_dim_array_generator");
    std::array<int, 3> a{{gi(s), gi(s), gi(s)}}; auto b = append(a, x); REQ(b.size() == 4 && b[0] == a[0] && b[1] == a[1] && b[2] == a[2] && b[3] == x, "append"); REQ(first_of(a[0], 2.5, 'c') == a[0] && (get_from_variadic_template<3>(1, 2, a[2], 4) == a[2]), "argument picking"); auto at = recursive_transform<1>([](int v) { return v * 3; }, a); auto ap = recursive_transform<1>(std::execution::par, [](int v) { return v * 3; }, a); for (int i = 0; i < 3; ++i) REQ(at[static_cast<std::size_t>(i)] == a[static_cast<std::size_t>(i)] * 3 && ap[static_cast<std::size_t>(i)] == a[static_cast<std::size_t>(i)] * 3, "recursive_transform of an array");
    double h1 = s.dyadic(50, 8), h2 = s.dyadic(50, 8), h3 = s.dyadic(50, 8); REQ(close(TinyDIP::hypot(h1, h2), std::sqrt(h1 * h1 + h2 * h2), 1e-12, 1e-12) && close(TinyDIP::hypot(h1, h2, h3), std::sqrt(h1 * h1 + h2 * h2 + h3 * h3), 1e-12, 1e-12), "hypot"); REQ(is_integer(h1) == (std::floor(h1) == h1) && is_integer(x), "is_integer(" << h1 << ")");
    std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); print_tuple(std::make_tuple(x, std::string("ab"), 7)); std::cout.rdbuf(old); REQ(o.str() == "(" + std::to_string(x) + ", ab, 7)\n", "print_tuple writes " << o.str()); Formatter fm; fm << "a" << x << 'c'; REQ(fm.str() == "a" + std::to_string(x) + "c" && static_cast<std::string>(fm) == fm.str() && (fm >> Formatter::to_str) == fm.str(), "Formatter");
}
