// C26: the commands the plugins add (abs, max, min, sum, subtract, add) against their definitions, over every kind of value a session holds
// vp-flags: -noasan -O0
// vp-obj: plug_abs plug_max plug_min plug_sum plug_subtract plug_add plug_register plug_register_add
#include "img.h"
#include "main.h"
#include <deque>
#include <list>
using namespace g;
using TinyDIP::RGB; using TinyDIP::RGB_DOUBLE; using TinyDIP::HSV; using TinyDIP::MultiChannel;
typedef std::complex<double> CD; typedef std::vector<std::string> VS; typedef MultiChannel<double> MC;
extern "C" { void vp_register_math(CommandRegistry&); void vp_register_add(CommandRegistry&); }
static const CommandRegistry& reg() { static CommandRegistry* r = [] { auto p = new CommandRegistry; vp_register_math(*p); vp_register_add(*p); return p; }(); return *r; }
template<class T> constexpr bool isimg = false; template<class T> constexpr bool isimg<Image<T>> = true;
template<class T> constexpr bool isarr = false; template<class T, std::size_t N> constexpr bool isarr<std::array<T, N>> = true;
template<class T> struct elem { using type = typename T::value_type; }; template<class T> struct elem<Image<T>> { using type = T; };
template<class T> using elem_t = typename elem<T>::type;
template<class E> E ge(Src& s)
{
    if constexpr (std::is_same_v<E, bool>) return s.flip(); else if constexpr (std::is_same_v<E, unsigned char>) return gb(s); else if constexpr (std::is_same_v<E, int>) return static_cast<int>(s.sint(1000)); else if constexpr (std::is_same_v<E, double>) return gd(s); else if constexpr (std::is_same_v<E, std::size_t>) return s.draw(100000);
    else if constexpr (std::is_same_v<E, CD>) { double a = gd(s); return CD(a, gd(s)); } else if constexpr (std::is_same_v<E, RGB>) return grgb(s); else { E e; for (auto& c : e.channels) c = gd(s); return e; }
}
template<class V> V gv(Src& s, const Sz& z)
{
    using E = elem_t<V>;
    if constexpr (isimg<V>) { std::vector<E> d(prod(z)); for (std::size_t i = 0; i < d.size(); ++i) d[i] = ge<E>(s); return V(d, z); } else { V v{}; if constexpr (!isarr<V>) v.resize(prod(z)); for (auto i = v.begin(); i != v.end(); ++i) *i = ge<E>(s); return v; }
}
template<class V> std::vector<elem_t<V>> flat_of(const V& v) { if constexpr (isimg<V>) { std::vector<elem_t<V>> o(v.count()); for (std::size_t i = 0; i < o.size(); ++i) o[i] = v.get(i); return o; } else return std::vector<elem_t<V>>(v.begin(), v.end()); }
template<class V> Sz shape(const V& v) { if constexpr (isimg<V>) return v.getSize(); else return {static_cast<std::size_t>(std::distance(v.begin(), v.end()))}; }
template<class V> V like(const V& v, const std::vector<elem_t<V>>& d) { if constexpr (isimg<V>) return V(d, v.getSize()); else { V o = v; auto i = o.begin(); for (std::size_t k = 0; k < d.size(); ++k, ++i) *i = d[k]; return o; } }
template<class V> std::string text(const V& v) { std::string o = str(shape(v)) + "{"; for (const auto& e : flat_of(v)) { elem_t<V> c = e; o += ps(c) + " "; } return o + "}"; }
#define TYPES(X) X(Image<unsigned char>) X(Image<int>) X(Image<double>) X(Image<std::size_t>) X(Image<bool>) X(Image<RGB>) X(Image<RGB_DOUBLE>) X(Image<HSV>) X(Image<CD>) X(Image<MC>) \
    X(std::vector<bool>) X(std::vector<unsigned char>) X(std::vector<int>) X(std::vector<double>) X(std::vector<std::size_t>) X(std::deque<bool>) X(std::deque<unsigned char>) X(std::deque<int>) X(std::deque<double>) X(std::deque<std::size_t>) \
    X(std::list<bool>) X(std::list<unsigned char>) X(std::list<int>) X(std::list<double>) X(std::list<std::size_t>) X(A3<unsigned char>) X(A3<int>) X(A3<double>) X(A3<std::size_t>) X(A3<bool>) X(A4<unsigned char>) X(A4<int>) X(A4<double>) X(A4<std::size_t>) X(A4<bool>)
template<class T> using A3 = std::array<T, 3>; template<class T> using A4 = std::array<T, 4>;
static std::string value(const std::any& a)
{
#define X(...) if (auto p = std::any_cast<__VA_ARGS__>(&a)) return #__VA_ARGS__ + text(*p);
    TYPES(X)
#undef X
#define X(...) if (auto p = std::any_cast<__VA_ARGS__>(&a)) return #__VA_ARGS__ + std::string("=") + ps(*p);
    X(bool) X(unsigned char) X(int) X(double) X(std::size_t) X(RGB) X(RGB_DOUBLE) X(HSV) X(CD) X(MC)
#undef X
    return std::string("?") + a.type().name();
}
typedef std::map<std::string, std::string> Snap;
static Snap snap(const Workspace& w) { Snap m; for (auto& [k, v] : w.memory_store) m[k] = value(v); return m; }
static std::string show(const Snap& m) { std::string o; for (auto& [k, v] : m) o += k + ":" + v + "; "; return o; }
struct Run { VS args; std::string out; Snap before, after; };
static const char* POL[] = {"seq", "par", "par_unseq", "unseq"};
static Run run(Src& s, Workspace& w, const std::string& cmd, VS args)
{
    std::size_t np = s.chance(1, 2) ? 0 : 1; for (std::size_t i = 0; i < np; ++i) args.insert(args.begin() + static_cast<long>(s.draw(args.size())), POL[s.draw(3)]);
    Run r; r.args = args; r.before = snap(w); std::vector<std::string_view> a(args.begin(), args.end()); std::ostringstream o; s.desc << cmd; for (auto& x : args) s.desc << " " << x; s.desc << " with " << show(r.before);
    reg().execute(w, cmd, a, o); r.out = o.str(); r.after = snap(w); return r;
}
static void expect(const Run& r, const std::string& name, const std::string& want, const std::string& what) { Snap e = r.before; e[name] = want; REQ(r.after == e, what << ": the session holds " << show(r.after) << " expected " << show(e) << "; output " << r.out); }
static void refused(const Run& r, const std::string& what) { REQ(r.after == r.before, what << ": the session changed to " << show(r.after)); REQ(r.out.find("rror") != std::string::npos || r.out.find("sage") != std::string::npos, what << ": nothing reported, output " << r.out); }
template<class V> std::string as(const V& v) { return value(std::any(v)); }
static Sz gsz(Src& s, bool big = false) { return {s.sz(1, big ? 12 : 5), s.sz(1, big ? 12 : 4)}; }
static std::string vn(Src& s) { static const char* N[] = {"a", "b", "x1", "img", "out", "par_", "seqx", "A"}; return N[s.draw(7)]; }
static void clutter(Src& s, Workspace& w, const VS& used) { for (std::size_t n = s.draw(2); n--;) { auto k = "z" + vn(s); if (std::find(used.begin(), used.end(), k) == used.end()) switch (s.draw(3)) { case 0: w.store(k, static_cast<int>(s.draw(9))); break; case 1: w.store(k, dimg(s, {2, 1})); break; case 2: w.store(k, rgbimg(s, {1, 2})); break; default: w.store(k, std::vector<int>{1, 2}); } } }
template<class F> void with_type(std::size_t k, F f)
{
    std::size_t i = 0;
#define X(...) if (i++ == k) return f(std::type_identity<__VA_ARGS__>{});
    TYPES(X)
#undef X
}
static const std::size_t NT = 35;

PROPW(abs_command, 2, "a value has a negative part")
{
    with_type(s.draw(NT - 1), [&]<class V>(std::type_identity<V>)
    {
        using E = elem_t<V>; Workspace w; auto in = vn(s), out = s.chance(1, 4) ? in : vn(s); clutter(s, w, {in, out}); V v = gv<V>(s, gsz(s, true)); w.store(in, v); auto d = flat_of(v); bool neg = false; auto r = run(s, w, "abs", {"$" + in, "$" + out});
        if constexpr (std::is_same_v<E, CD> || std::is_same_v<E, HSV> || std::is_same_v<E, bool>) { Snap a = r.before, b = r.after; a.erase(out); b.erase(out); REQ(a == b, "abs changed another variable: " << ::show(b)); }
        else
        {
            for (std::size_t i = 0; i < d.size(); ++i) { if constexpr (requires { d[i].channels; }) { for (auto& c : d[i].channels) if (c < 0) { c = -c; neg = true; } } else if (d[i] < 0) { d[i] = -d[i]; neg = true; } }
            for (auto&& e : d) { if constexpr (std::is_same_v<E, double>) e = std::fabs(e); else if constexpr (requires { e.channels; }) for (auto& c : e.channels) c = static_cast<std::remove_cvref_t<decltype(c)>>(std::fabs(static_cast<double>(c))); }
            expect(r, out, as(like(v, d)), "abs"); s.nontrivial(neg);
        }
    });
}
template<class E, class B> static E pick_ext(const std::vector<E>& d, bool mx) { E b = d[0]; for (std::size_t i = 1; i < d.size(); ++i) { E c = d[i]; if (mx ? b < c : c < b) b = c; } return b; }
PROPW(extremes, 2, "the extreme is not the first element")
{
    with_type(s.draw(NT - 1), [&]<class V>(std::type_identity<V>)
    {
        using E = elem_t<V>; bool mx = s.flip(), pr = s.chance(1, 3); Workspace w; auto in = vn(s), out = s.chance(1, 4) ? in : vn(s); clutter(s, w, {in, out}); V v = gv<V>(s, gsz(s, true)); w.store(in, v); auto d = flat_of(v); std::string cmd = mx ? "max" : "min"; VS a{"$" + in}; if (!pr) a.push_back("$" + out); auto r = run(s, w, cmd, a);
        if constexpr (std::is_same_v<E, CD>) refused(r, cmd + " of complex values");
        else if constexpr (requires { d[0].channels; })
        {
            using Ch = std::remove_cvref_t<decltype(d[0].channels[0])>; std::vector<Ch> want; for (std::size_t c = 0; c < std::size(d[0].channels); ++c) { Ch b = d[0].channels[c]; for (auto& e : d) if (mx ? b < e.channels[c] : e.channels[c] < b) b = e.channels[c]; want.push_back(b); if (b != d[0].channels[c]) s.nontrivial(true); }
            if (pr) { std::ostringstream o; o << (mx ? "Max" : "Min") << " result: {"; for (std::size_t i = 0; i < want.size(); ++i) o << (i ? ", " : "") << +want[i]; o << "}"; REQ(r.out.find(o.str()) != std::string::npos && r.before == r.after, cmd << " printed " << r.out << " expected " << o.str()); }
            else expect(r, out, as(want), cmd);
        }
        else
        {
            E b = pick_ext<E, V>(d, mx); s.nontrivial(!(b == d[0]));
            if (pr) { std::ostringstream o; o << (mx ? "Max" : "Min") << " result: " << +b << "\n"; REQ(r.out.find(o.str()) != std::string::npos && r.before == r.after, cmd << " printed " << r.out << " expected " << o.str()); }
            else expect(r, out, as(b), cmd);
        }
    });
}
PROPW(sum_command, 2, "more than one element")
{
    with_type(s.draw(NT - 1), [&]<class V>(std::type_identity<V>)
    {
        using E = elem_t<V>;
        if constexpr (std::is_same_v<E, bool>) return; else
        {
            bool pr = s.chance(1, 3); Workspace w; auto in = vn(s), out = s.chance(1, 4) ? in : vn(s); clutter(s, w, {in, out}); V v = gv<V>(s, gsz(s, true)); auto d = flat_of(v); if constexpr (std::is_same_v<E, unsigned char>) { std::size_t left = 255; for (auto& e : d) { e = static_cast<unsigned char>(std::min<std::size_t>(e, left)); left -= e; } std::reverse(d.begin(), d.end()); v = like(v, d); } w.store(in, v); s.nontrivial(d.size() > 1); VS a{"$" + in}; if (!pr) a.push_back("$" + out); auto r = run(s, w, "sum", a);
            if constexpr (std::is_same_v<E, HSV>) { Snap x = r.before, y = r.after; x.erase(out); y.erase(out); REQ(x == y, "sum changed another variable"); }
            else if constexpr (requires { d[0].channels; })
            {
                using R = std::conditional_t<std::is_same_v<E, RGB>, RGB_DOUBLE, E>; R t; for (std::size_t c = 0; c < std::size(t.channels); ++c) { t.channels[c] = 0; for (auto& e : d) t.channels[c] += static_cast<double>(e.channels[c]); }
                if (pr) REQ(r.before == r.after && r.out.find("Sum result") != std::string::npos, "sum without an output: " << r.out << ::show(r.after)); else expect(r, out, as(t), "sum");
            }
            else { E t{}; for (auto& e : d) t = static_cast<E>(t + e); if (pr) { std::ostringstream o; if constexpr (std::is_arithmetic_v<E>) o << "Sum result: " << +t << "\n"; else o << "Sum result: " << t << "\n"; REQ(r.out.find(o.str()) != std::string::npos && r.before == r.after, "sum printed " << r.out << " expected " << o.str()); } else expect(r, out, as(t), "sum"); }
        }
    });
}
PROPW(combine, 3, "the operands differ")
{
    with_type(s.draw(9), [&]<class V>(std::type_identity<V>)
    {
        using E = elem_t<V>;
        if constexpr (isimg<V>)
        {
            bool add = s.flip(); std::string cmd = add ? "add" : "subtract"; Workspace w; auto i1 = vn(s), i2 = s.chance(1, 5) ? i1 : vn(s), out = s.chance(1, 4) ? (s.flip() ? i1 : i2) : vn(s); clutter(s, w, {}); Sz z = gsz(s), z2 = z; bool bad = s.chance(1, 6); if (bad) { if (s.flip()) std::swap(z2[0], z2[1]); else z2[s.draw(1)] += 1; }
            V a = gv<V>(s, z), b = gv<V>(s, z2); w.store(i1, a); w.store(i2, b); if (i1 == i2) { a = b; z = z2; } auto x = flat_of(a), y = flat_of(b); if constexpr (std::is_same_v<E, std::size_t>) if (!add) { for (std::size_t i = 0; i < y.size() && i < x.size(); ++i) if (y[i] > x[i]) y[i] = x[i]; b = like(b, y); w.store(i2, b); if (i1 == i2) x = y; }
            auto r = run(s, w, cmd, {"$" + i1, "$" + i2, "$" + out}); if (std::is_same_v<E, bool>) { refused(r, cmd + " of truth values"); return; } if (z != z2) { refused(r, cmd + " of images of different sizes"); return; } s.nontrivial(i1 != i2);
            if constexpr (std::is_same_v<E, HSV> || std::is_same_v<E, unsigned char> || std::is_same_v<E, RGB>)
            {   // narrow channels: the stored value is the exact result wherever it is representable
                Snap p = r.before, q = r.after; p.erase(out); q.erase(out); REQ(p == q, cmd << " changed another variable"); auto o = w.retrieve<V>(out); if (std::is_same_v<E, unsigned char>) REQ(o, cmd << " stored " << ::show(r.after)); if (!o || (o->getSize() != z)) { REQ(r.after == r.before || o == nullptr, cmd << " result size"); return; } auto d = flat_of(*o);
                for (std::size_t i = 0; i < d.size(); ++i) { if constexpr (std::is_same_v<E, unsigned char>) { int t = add ? x[i] + y[i] : x[i] - y[i]; if (t >= 0 && t <= 255) REQ(d[i] == t, cmd << " element " << i << " is " << +d[i] << " expected " << t); } else if constexpr (std::is_same_v<E, RGB>) for (std::size_t c = 0; c < 3; ++c) { int t = add ? x[i].channels[c] + y[i].channels[c] : x[i].channels[c] - y[i].channels[c]; if (t >= 0 && t <= 255) REQ(d[i].channels[c] == t, cmd << " element " << i << " channel " << c << " is " << +d[i].channels[c] << " expected " << t); } }
            }
            else
            {
                for (std::size_t i = 0; i < x.size(); ++i) if constexpr (requires { x[i].channels; }) { for (std::size_t c = 0; c < std::size(x[i].channels); ++c) x[i].channels[c] = add ? x[i].channels[c] + y[i].channels[c] : x[i].channels[c] - y[i].channels[c]; } else x[i] = add ? x[i] + y[i] : x[i] - y[i];
                expect(r, out, as(like(a, x)), cmd);
            }
        }
    });
}
PROPW(combine_containers, 1, "same number of elements")
{
    with_type(10 + s.draw(NT - 11), [&]<class V>(std::type_identity<V>)
    {
        using E = elem_t<V>; bool add = s.flip(); std::string cmd = add ? "add" : "subtract"; Workspace w; auto i1 = vn(s), i2 = vn(s), out = vn(s); clutter(s, w, {}); V a = gv<V>(s, gsz(s)), b = gv<V>(s, s.chance(1, 4) ? gsz(s) : shape(a)); w.store(i1, a); w.store(i2, b); if (i1 == i2) a = b; auto x = flat_of(a), y = flat_of(b); if constexpr (std::is_same_v<E, std::size_t>) if (!add) { for (std::size_t i = 0; i < y.size() && i < x.size(); ++i) y[i] = std::min<std::size_t>(y[i], x[i]); b = like(b, y); w.store(i2, b); if (i1 == i2) x = y; }
        auto r = run(s, w, cmd, {"$" + i1, "$" + i2, "$" + out}); s.nontrivial(x.size() == y.size()); Snap p = r.before, q = r.after; p.erase(out); q.erase(out); REQ(p == q, cmd << " changed another variable: " << ::show(q)); if (r.before == r.after) { REQ(r.out.find("rror") != std::string::npos || out == i1 || out == i2, cmd << " stored nothing and reported nothing: " << r.out); return; }
        if constexpr (!std::is_same_v<E, bool> && !std::is_same_v<E, unsigned char>) { REQ(x.size() == y.size(), cmd << " of containers of different lengths stored " << ::show(r.after)); for (std::size_t i = 0; i < x.size(); ++i) x[i] = add ? x[i] + y[i] : x[i] - y[i]; expect(r, out, as(like(a, x)), cmd); }
    });
}
PROP(empty, "always")
{
    with_type(s.draw(24), [&]<class V>(std::type_identity<V>)
    {   // nothing to choose from: refused; the other commands give the empty result or refuse
        static const char* C[] = {"max", "min", "abs", "sum"}; s.nontrivial(true); std::string cmd = C[s.draw(3)]; V v; if constexpr (isimg<V>) { std::size_t n = s.uz(0, 3), k = s.draw(1); v = k ? V(std::size_t{0}, n) : V(n, std::size_t{0}); } Workspace w; w.store("e", v); clutter(s, w, {}); auto r = run(s, w, cmd, s.flip() && cmd != "abs" ? VS{"$e"} : VS{"$e", "$o"}); if (cmd[0] == 'm') refused(r, cmd + " of no elements"); else { Snap p = r.before, q = r.after; q.erase("o"); REQ(p == q, cmd << " changed another variable"); }
    });
}
PROPW(refusals, 1, "always")
{
    s.nontrivial(true); Workspace w; static const char* C[] = {"abs", "max", "min", "sum", "add", "subtract"}; std::size_t k = s.draw(5); std::string cmd = C[k]; bool two = k >= 4; w.store("a", dimg(s, gsz(s))); w.store("b", 3); w.store("s", std::string("text")); clutter(s, w, {});
    VS a; std::string what;
    switch (s.draw(3))
    {
    case 0: what = "no arguments"; break;
    case 1: what = "a missing variable"; a = {"$nothing"}; if (two) { a.push_back("$a"); if (s.flip()) std::swap(a[0], a[1]); } a.push_back("$a"); break;
    case 2: what = "a value of an unsupported type"; a = {s.flip() ? "$s" : "$b"}; if (two) a.push_back("$a"); a.push_back("$a"); break;
    default: if (two) { what = "a missing output"; a = {"$a", "$a"}; } else if (k == 0) { what = "a missing output"; a = {"$a"}; } else { what = "an output that is no variable"; a = {"$a", s.flip() ? "b" : "out.txt"}; }
    }
    auto r = run(s, w, cmd, a); refused(r, cmd + " with " + what);
}
PROP(registration, "always")
{
    s.nontrivial(true); static const struct { const char* n; int i, o; } T[] = {{"abs", 0, 1}, {"max", 0, 1}, {"min", 0, 1}, {"sum", 0, 1}, {"subtract", 0, 2}, {"add", 0, 2}}; std::size_t k = s.draw(5); CommandRegistry r; bool m = s.flip(), ad = s.flip(); if (m) vp_register_math(r); if (ad) vp_register_add(r); auto g = r.get_schema(T[k].n); bool want = k == 5 ? ad : m; s.desc << T[k].n << m << ad; REQ(static_cast<bool>(g) == want, T[k].n << " registered"); if (g) REQ(g->in_idx == T[k].i && g->out_idx == T[k].o, T[k].n << " schema " << g->in_idx << " " << g->out_idx); std::ostringstream o; r.list_commands(o); REQ((o.str().find(std::string("  ") + T[k].n + " ") != std::string::npos) == want, "list of commands: " << o.str());
}
