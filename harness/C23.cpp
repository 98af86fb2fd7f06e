// C23: command-line engine: workspace, argument parsing, registry, file routing and pipeline optimizer
// vp-flags: -O0
#include "img.h"
#include "main.h"
#include <thread>
#include <filesystem>
using namespace g;
using TinyDIP::RGB; using TinyDIP::HSV;
typedef std::vector<std::string> VS;
static const char* JUNK[] = {"", " ", "\t", "\"", "'", "\r", "\n", "\" ", "''", " \t\r\n"};
static std::string deco(Src& s, const std::string& n) { return std::string(JUNK[s.draw(9)]) + n + JUNK[s.draw(9)]; }
static std::string gname(Src& s) { static const char* N[] = {"a", "b", "c", "ab", "a b", "x.y", "__pipe_0", "A", "a'b", ""}; return N[s.draw(9)]; }
static VS names(const Workspace& w) { VS v; for (auto& [k, _] : w.memory_store) v.push_back(k); return v; }

// values of several types told apart by type and content
struct Val { int t; long v; bool operator==(const Val&) const = default; };
static void put(Workspace& w, const std::string& n, Val x) { switch (x.t) { case 0: w.store(n, static_cast<double>(x.v)); break; case 1: w.store(n, static_cast<int>(x.v)); break; case 2: w.store(n, static_cast<std::size_t>(x.v)); break; case 3: w.store(n, std::vector<int>{static_cast<int>(x.v), 7}); break; case 4: w.store(n, TinyDIP::Image<double>(std::vector<double>{static_cast<double>(x.v), 1, 2, 3}, Sz{2, 2})); break; default: { TinyDIP::Image<int> lv(std::vector<int>{static_cast<int>(x.v)}, Sz{1, 1}); w.store(n, lv); } } }
static std::optional<Val> get(const Workspace& w, const std::string& n)
{
    std::optional<Val> r; int hits = 0; if (auto p = w.retrieve<double>(n)) { ++hits; r = Val{0, static_cast<long>(*p)}; } if (auto p = w.retrieve<int>(n)) { ++hits; r = Val{1, *p}; } if (auto p = w.retrieve<std::size_t>(n)) { ++hits; r = Val{2, static_cast<long>(*p)}; } if (auto p = w.retrieve<std::vector<int>>(n)) { ++hits; r = Val{3, (*p)[0]}; } if (auto p = w.retrieve<TinyDIP::Image<double>>(n)) { ++hits; r = Val{4, static_cast<long>(p->at(std::size_t{0}, std::size_t{0}))}; } if (auto p = w.retrieve<TinyDIP::Image<int>>(n)) { ++hits; r = Val{5, p->at(std::size_t{0}, std::size_t{0})}; } if (hits > 1) r = Val{99, 0}; return r;
}
PROPW(workspace_history, 3, "at least one overwrite, rename or removal of an existing variable")
{
    Workspace w; std::map<std::string, Val> m; int n = 1 + static_cast<int>(s.draw(14)); long c = 0; bool nt = false;
    for (int i = 0; i < n; ++i)
    {
        auto a = gname(s), b = gname(s); auto ka = std::string(sanitize_string_view(a)), kb = std::string(sanitize_string_view(b)); auto da = deco(s, a), db = deco(s, b);
        switch (s.draw(5))
        {
        case 0: case 1: { Val v{static_cast<int>(s.draw(5)), ++c}; s.desc << "store " << ka << ":" << v.t << "; "; nt |= m.count(ka) > 0; put(w, da, v); m[ka] = v; break; }
        case 2: { s.desc << "rename " << ka << ">" << kb << "; "; bool has = m.count(ka) > 0; REQ(w.rename(da, db) == has, "rename reports " << !has); if (has) { nt = true; Val v = m[ka]; m.erase(ka); m[kb] = v; } break; }
        case 3: { s.desc << "remove " << ka << "; "; bool has = m.count(ka) > 0; nt |= has; REQ(w.remove(da) == has, "remove reports " << !has); m.erase(ka); break; }
        case 4: { s.desc << "copy " << ka << ">" << kb << "; "; auto o = w.retrieve_any(da); REQ(o.has_value() == (m.count(ka) > 0), "retrieve_any presence"); if (o) { w.store(db, *o); m[kb] = Val(m[ka]); } break; }
        default: if (s.chance(1, 6)) { s.desc << "clear; "; w.clear(); m.clear(); } else { std::ostringstream o; w.list_variables(o); std::string t = o.str(); if (m.empty()) REQ(t.find("empty") != std::string::npos, "listing of an empty workspace"); std::size_t lines = static_cast<std::size_t>(std::count(t.begin(), t.end(), '\n')); REQ(lines == std::max<std::size_t>(1, m.size()), "listing has " << lines << " lines for " << m.size() << " variables:\n" << t); for (auto& [k, v] : m) { auto p = t.find("  $" + k); REQ(p != std::string::npos, "variable " << k << " missing from the listing:\n" << t); } }
        }
        VS k; for (auto& [x, _] : m) k.push_back(x); REQ(names(w) == k, "the workspace holds " << w.memory_store.size() << " variables, expected " << k.size()); for (auto& [x, v] : m) { auto r = get(w, deco(s, x)); REQ(r && *r == v, "variable " << x << " holds " << (r ? r->t : -1) << "/" << (r ? r->v : 0) << " expected " << v.t << "/" << v.v); }
    }
    s.nontrivial(nt);
}
PROP(listing, "more than one kind of variable")
{   // the listing names type, size and value
    Workspace w; std::vector<std::pair<std::string, std::string>> want; Sz z = dims(s, 1, 3, 1, 4); std::string zs; for (std::size_t i = 0; i < z.size(); ++i) zs += (i ? " x " : "") + std::to_string(z[i]); int k = 0; std::uint64_t mask = s.draw(255); s.desc << "kinds " << mask << " size " << zs; s.nontrivial((mask & (mask - 1)) != 0); auto nm = [&] { return "v" + std::to_string(k++); };
    if (mask & 1) { auto n = nm(); w.store(n, dimg(s, z)); want.emplace_back(n, ", size = " + zs); } if (mask & 2) { auto n = nm(); w.store(n, rgbimg(s, z)); want.emplace_back(n, ", size = " + zs); } if (mask & 4) { auto n = nm(); int v = static_cast<int>(s.sint(1000)); w.store(n, v); want.emplace_back(n, ", scalar value = " + std::to_string(v)); } if (mask & 8) { auto n = nm(); unsigned char v = static_cast<unsigned char>(s.draw(255)); w.store(n, v); want.emplace_back(n, ", scalar value = " + std::to_string(int(v))); }
    if (mask & 16) { auto n = nm(); std::vector<int> v; std::string t; std::size_t c = s.draw(4); for (std::size_t i = 0; i < c; ++i) { v.push_back(static_cast<int>(s.sint(99))); t += (i ? ", " : "") + std::to_string(v.back()); } w.store(n, v); want.emplace_back(n, ", container value = {" + t + "}"); } if (mask & 32) { auto n = nm(); std::vector<TinyDIP::Image<double>> v; std::size_t c = s.draw(3); for (std::size_t i = 0; i < c; ++i) v.push_back(dimg(s, z)); w.store(n, v); want.emplace_back(n, ", count = " + std::to_string(c) + (c ? " (first image size: " + zs + ")" : "")); } if (mask & 64) { auto n = nm(); w.store(n, std::complex<double>(2, -3)); want.emplace_back(n, ", scalar value = (2 + -3i)"); } if (mask & 128) { auto n = nm(); std::size_t v = s.draw(1u << 30); w.store(n, v); want.emplace_back(n, ", scalar value = " + std::to_string(v)); }
    std::ostringstream o; w.list_variables(o); std::istringstream is(o.str()); std::string l; for (auto& [n, t] : want) { REQ(std::getline(is, l), "listing ends early"); REQ(l.find("$" + n) != std::string::npos && l.size() >= t.size() && l.substr(l.size() - t.size()) == t, "variable " << n << " is listed as \"" << l << "\" expected to end \"" << t << "\""); }
}
PROP(workspace_threads, "at least two threads")
{
    Workspace w; int T = 1 + static_cast<int>(s.draw(3)), n = 1 + static_cast<int>(s.draw(30)); std::uint64_t seed = s.draw(1u << 20); s.desc << T << " threads, " << n << " operations, seed " << seed; s.nontrivial(T > 1); std::vector<std::map<std::string, Val>> model(static_cast<std::size_t>(T)); std::vector<std::string> bad(static_cast<std::size_t>(T)); std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { std::mt19937 r(static_cast<unsigned>(seed + static_cast<unsigned>(t) * 7919u)); auto& m = model[static_cast<std::size_t>(t)]; auto nm = [&] { return "t" + std::to_string(t) + "_" + std::to_string(r() % 4); }; long c = 0; for (int i = 0; i < n; ++i) { auto a = nm(), b = nm(); switch (r() % 4) { case 0: case 1: { Val v{static_cast<int>(r() % 6), ++c}; put(w, a, v); m[a] = v; break; } case 2: { bool h = m.count(a) > 0; if (w.rename(a, b) != h) bad[static_cast<std::size_t>(t)] = "rename"; if (h) { Val v = m[a]; m.erase(a); m[b] = v; } break; } default: { bool h = m.count(a) > 0; if (w.remove(a) != h) bad[static_cast<std::size_t>(t)] = "remove"; m.erase(a); } } put(w, "shared", Val{1, t}); (void)w.retrieve_any("shared"); } });
    for (auto& x : th) x.join(); for (auto& b : bad) REQ(b.empty(), b << " of a variable of another thread's concern fails"); std::size_t total = 1; for (auto& m : model) { total += m.size(); for (auto& [k, v] : m) { auto r = get(w, k); REQ(r && *r == v, "variable " << k << " lost or changed"); } } REQ(w.memory_store.size() == total, w.memory_store.size() << " variables, expected " << total);
}
static std::string num(double v) { char b[64]; auto r = std::to_chars(b, b + 64, v); return std::string(b, r.ptr); }
PROPW(parsing, 2, "decorated or invalid argument")
{
    auto d = [&](const std::string& t) { return deco(s, t); }; double v = s.flip() ? s.dyadic(1000, 64) : std::ldexp(s.real(-1, 1), static_cast<int>(s.sint(200))); auto t = d(num(v)); s.desc << "'" << t << "' "; s.nontrivial(t.size() != num(v).size()); REQ(parse_arg<double>(t) == v, "double " << t << " parsed as " << parse_arg<double>(t)); std::int64_t i = s.flip() ? s.sint(1000) : static_cast<std::int64_t>(s.draw(0xffffffff)) * (s.flip() ? 1 : -1); t = d(std::to_string(i)); REQ(parse_arg<long>(t) == i, "long " << t); if (i >= 0) REQ(parse_arg<std::size_t>(t) == static_cast<std::size_t>(i), "size " << t); else REQ(throws<std::invalid_argument>([&] { parse_arg<std::size_t>(t); }), "negative size " << t << " accepted");
    if (i > std::numeric_limits<int>::max() || i < std::numeric_limits<int>::min()) REQ(throws<std::invalid_argument>([&] { parse_arg<int>(t); }), "int out of range accepted: " << t); else REQ(parse_arg<int>(t) == i, "int " << t); if (i < 0 || i > 255) REQ(throws<std::invalid_argument>([&] { parse_arg<unsigned char>(t); }), "byte out of range accepted: " << t); else REQ(parse_arg<unsigned char>(t) == i, "byte " << t);
    static const char* TF[] = {"1", "true", "TRUE", "True", "tRuE", "0", "false", "FALSE", "False", "fAlSe"}; std::size_t k = s.draw(9); REQ(parse_arg<bool>(d(TF[k])) == (k < 5), "bool " << TF[k]); static const char* BAD[] = {"", "abc", "x1", "--1", "$a", "tru", "e5", "."}; std::string b = d(BAD[s.draw(7)]); REQ(throws<std::invalid_argument>([&] { parse_arg<double>(b); }) && throws<std::invalid_argument>([&] { parse_arg<int>(b); }) && throws<std::invalid_argument>([&] { parse_arg<std::size_t>(b); }) && throws<std::invalid_argument>([&] { parse_arg<bool>(b); }), "invalid argument '" << b << "' accepted"); REQ(throws<std::invalid_argument>([&] { parse_arg<RGB>(b); }), "colour literal");
    std::string w = gname(s); std::string core(sanitize_string_view(w)); REQ(sanitize_string_view(d(w)) == core || d("").empty(), "sanitizing keeps decoration"); { std::string dw = d(w); REQ(sanitize_string_view(dw) == core, "'" << dw << "' sanitized to '" << sanitize_string_view(dw) << "'"); }
    std::string p, q; std::size_t L = s.draw(6); for (std::size_t j = 0; j < L; ++j) { char c = static_cast<char>("aAzZmM09_@[`{"[s.draw(12)]); p += c; q += s.flip() ? static_cast<char>(std::toupper(c)) : s.flip() ? static_cast<char>(std::tolower(c)) : c; } if (s.chance(1, 3) && L) q[s.draw(L - 1)] = static_cast<char>("aAzZ09_@[`{"[s.draw(10)]); if (s.chance(1, 5)) q += 'a'; std::string pl = p, ql = q; for (auto& c : pl) c = static_cast<char>(std::tolower(c)); for (auto& c : ql) c = static_cast<char>(std::tolower(c)); REQ(iequals(p, q) == (pl == ql), p << " and " << q << " compared without case");
}
PROP(policy_arguments, "a policy among the arguments")
{
    static const char* POL[] = {"seq", "par", "par_unseq", "unseq"}; static const char* OTH[] = {"$a", "SEQ", "par ", "seqq", "2", "", "unse", "in.bmp"}; VS a; std::string first; VS rest; std::size_t n = s.draw(6); for (std::size_t i = 0; i < n; ++i) if (s.chance(1, 3)) { a.push_back(POL[s.draw(3)]); if (first.empty()) first = a.back(); } else { a.push_back(OTH[s.draw(7)]); rest.push_back(a.back()); } for (auto& x : a) s.desc << "'" << x << "' "; s.nontrivial(!first.empty()); std::vector<std::string_view> v(a.begin(), a.end()); REQ(extract_policy_string(v) == first, "policy is '" << extract_policy_string(v) << "' expected '" << first << "'"); auto f = args_filter(v); REQ(std::ranges::equal(f, rest), "filtering policies changes the other arguments"); auto l = args_filter<std::list<std::string_view>>(v); REQ(std::ranges::equal(l, rest), "filtering into a list");
    std::string ask = s.flip() ? first : s.flip() ? POL[s.draw(3)] : OTH[s.draw(7)]; int got = -1, calls = 0; std::ostringstream o; auto pf = [&]<class P>(P&&) -> std::any { ++calls; using D = std::remove_cvref_t<P>; got = std::is_same_v<D, std::execution::sequenced_policy> ? 0 : std::is_same_v<D, std::execution::parallel_policy> ? 1 : std::is_same_v<D, std::execution::parallel_unsequenced_policy> ? 2 : 3; return std::any(got); }; auto df = [&]() -> std::any { ++calls; got = 9; return std::any(got); }; auto r = dispatch_policy_string(ask, pf, df, o); int want = 9; for (int i = 0; i < 4; ++i) if (ask == POL[i]) want = i; REQ(got == want && calls == 1 && std::any_cast<int>(r) == want, "policy '" << ask << "' runs variant " << got << " " << calls << " times"); REQ((o.str().find("Warning") != std::string::npos) == (want == 9 && !ask.empty()), "warning for '" << ask << "': " << o.str());
}
PROP(registry, "an existing command is executed")
{
    CommandRegistry r; std::map<std::string, int> m; int n = static_cast<int>(s.draw(6)); std::string trace; for (int i = 0; i < n; ++i) { auto nm = gname(s); int kind = static_cast<int>(s.draw(2)); IOSchema sc{static_cast<int>(s.draw(3)) - 1, static_cast<int>(s.draw(3)) - 1}; auto h = [i, kind, &trace](Workspace& w, std::span<const std::string_view> a, std::ostream& o) { trace += std::to_string(i) + ":" + std::to_string(a.size()) + (a.empty() ? "" : std::string(a[0])) + ";"; w.store("ran", i); o << "out" << i; if (kind == 1) throw std::runtime_error("boom"); if (kind == 2) throw std::out_of_range("oob"); }; if (s.chance(1, 4)) { r.register_command(nm, "d" + std::to_string(i), h); sc = IOSchema{-1, -1}; } else r.register_command(nm, "d" + std::to_string(i), sc, h); bool fresh = m.emplace(nm, i).second; auto g = r.get_schema(nm); REQ(g, "schema of a registered command"); if (fresh) REQ(g->in_idx == sc.in_idx && g->out_idx == sc.out_idx, "schema of " << nm); }
    std::ostringstream l; r.list_commands(l); for (auto& [k, i] : m) REQ(l.str().find("d" + std::to_string(i) + "\n") != std::string::npos, "command " << k << " missing from the list"); Workspace w; auto nm = gname(s); std::ostringstream o; std::vector<std::string_view> a; if (s.flip()) a = {"x", "y"}; s.desc << n << " registrations, execute '" << nm << "'"; r.execute(w, nm, a, o); bool has = m.count(nm) > 0; s.nontrivial(has); if (has) { REQ(trace == std::to_string(m[nm]) + ":" + std::to_string(a.size()) + (a.empty() ? "" : "x") + ";", "executing " << nm << " ran " << trace); REQ(o.str().rfind("out" + std::to_string(m[nm]), 0) == 0, "output " << o.str()); } else { REQ(trace.empty() && w.memory_store.empty() && o.str().find("Unknown command") != std::string::npos, "an unknown command runs " << trace); REQ(!r.get_schema(nm), "schema of an unknown command"); }
}
PROPW(file_routing, 2, "a file on disk")
{
    Workspace w; MetaImageIO::Loader ld; MetaImageIO::Saver sv; Sz z{s.sz(1, 6), s.sz(1, 6)}; auto dir = pbt::scratch() + "/io"; std::filesystem::create_directories(dir); std::string stem = s.flip() ? "p" : s.flip() ? "p.q" : "p q"; int k = static_cast<int>(s.draw(6)); auto file = dir + "/" + stem; auto q = [&](const std::string& f) { return s.flip() ? "\"" + f + "\"" : f; }; s.desc << "kind " << k << " '" << stem << "' " << str(z); s.nontrivial(k < 5); struct Rm { std::string d; ~Rm() { std::error_code e; std::filesystem::remove_all(d, e); } } rm{dir};
    auto only = [&](const std::string& f) { std::string all; int n = 0; for (auto& e : std::filesystem::directory_iterator(dir)) { ++n; all += e.path().filename().string() + " "; } REQ(n == 1 && std::filesystem::exists(f), "saving leaves the files " << all << "expected " << f); };
    std::string ext = k == 0 ? ".bmp" : k == 1 ? ".ppm" : k == 2 ? ".dbmp" : k == 3 ? ".csv" : ".hsv"; int seen = -1; auto disp = [&](const std::string& a) { seen = -1; auto p = [&]<class T>(T&& v) { using D = std::remove_cvref_t<T>; if constexpr (std::is_same_v<D, TinyDIP::Image<RGB>>) seen = 0; else if constexpr (std::is_same_v<D, TinyDIP::Image<double>>) seen = 1; else if constexpr (std::is_same_v<D, TinyDIP::Image<HSV>>) seen = 2; else seen = 3; (void)v; }; return dispatch_data_operation(a, w, ld, p); };
    if (k <= 1) { auto a = rgbimg(s, z); sv(q(file + ext), w, a); only(file + ext); auto b = ld.operator()<TinyDIP::Image<RGB>>(q(file + ext), w); req_eq(b, a, "colour image through " + ext); REQ(disp(q(file + ext)) && seen == 0, "file type routed to " << seen); }
    else if (k <= 3) { auto a = gen(s, z, [](Src& t) { return t.dyadic(200, 8); }); sv(q(file + ext), w, a); only(file + ext); auto b = ld.operator()<TinyDIP::Image<double>>(q(file + ext), w); req_eq(b, a, "floating-point image through " + ext); REQ(disp(q(file + ext)) && seen == 1, "file type routed to " << seen); }
    else if (k == 4) { auto a = gen(s, z, [](Src& t) { HSV h; for (auto& c : h.channels) c = t.dyadic(200, 8); return h; }); sv(q(file + ext), w, a); only(file + ext); auto b = ld.operator()<TinyDIP::Image<HSV>>(q(file + ext), w); REQ(b.getSize() == a.getSize(), "size"); for (std::size_t i = 0; i < prod(z); ++i) for (int c = 0; c < 3; ++c) REQ(data(b)[i].channels[c] == data(a)[i].channels[c], "hue-saturation-value image through " << ext); REQ(disp(q(file + ext)) && seen == 2, "file type routed to " << seen); }
    else if (k == 5) { auto a = rgbimg(s, z); auto d = dimg(s, z); sv("$x", w, a); sv("$ y\"", w, d); REQ(names(w) == (VS{"x", "y"}), "variables"); req_eq(ld.operator()<TinyDIP::Image<RGB>>("$x", w), a, "variable"); req_eq(ld.operator()<TinyDIP::Image<double>>("$y", w), d, "variable"); REQ(throws<std::invalid_argument>([&] { ld.operator()<TinyDIP::Image<RGB>>("$y", w); }) && throws<std::invalid_argument>([&] { ld.operator()<TinyDIP::Image<double>>("$z", w); }), "a missing variable or one of another type is loaded"); REQ(disp("$x") && seen == 0 && disp("$y") && seen == 1, "variable routed to " << seen); REQ(!disp("$z") && seen == -1, "a missing variable is processed"); w.store("n", 5); REQ(!disp("$n") && seen == -1, "a number is processed as an image"); REQ(std::filesystem::is_empty(dir), "a variable is written to disk"); }
    else { REQ(throws_any([&] { ld.operator()<TinyDIP::Image<RGB>>(file + ".bmp", w); }) && throws_any([&] { ld.operator()<TinyDIP::Image<RGB>>(file + ".ppm", w); }), "a missing file is loaded"); REQ(throws<std::invalid_argument>([&] { ld.operator()<TinyDIP::Image<int>>(file, w); }) && throws<std::invalid_argument>([&] { sv(file, w, TinyDIP::Image<int>(std::vector<int>(1), Sz{1, 1})); }), "a file format for int images"); }
}

// ---- optimizer: pipelines over symbolic values give the same user-visible state with and without it
struct World { Workspace w; std::map<std::string, std::string> files; };
static std::string reduce(const std::string& op, const std::string& e) { if (op == "dct2" && e.rfind("idct2(", 0) == 0) return e.substr(6, e.size() - 7); if (op == "idct2" && e.rfind("dct2(", 0) == 0) return e.substr(5, e.size() - 6); return op + "(" + e + ")"; }
static CommandRegistry sym(World& W)
{
    CommandRegistry r; auto rd = [&W](std::string_view a) -> std::string { if (a.starts_with('$')) { if (auto p = W.w.retrieve<std::string>(a.substr(1))) return *p; throw std::runtime_error("missing"); } auto i = W.files.find(std::string(a)); if (i == W.files.end()) throw std::runtime_error("no file"); return i->second; }; auto wr = [&W](std::string_view a, const std::string& v) { if (a.starts_with('$')) W.w.store(a.substr(1), v); else W.files[std::string(a)] = v; };
    for (std::string n : {"dct2", "idct2", "neg", "half"}) r.register_command(n, "", TransformerSchema, [=](Workspace&, std::span<const std::string_view> a, std::ostream&) { auto f = args_filter(a); if (f.size() < 2) return; wr(f[1], reduce(n, rd(f[0]))); });
    r.register_command("multiply", "", TransformerSchema, [=](Workspace&, std::span<const std::string_view> a, std::ostream&) { auto f = args_filter(a); if (f.size() < 3) return; double v = parse_arg<double>(f[2]); auto e = rd(f[0]); wr(f[1], v == 1 ? e : "mul" + num(v) + "(" + e + ")"); });
    r.register_command("join", "", CombinerSchema, [=](Workspace&, std::span<const std::string_view> a, std::ostream&) { auto f = args_filter(a); if (f.size() < 3) return; wr(f[2], "join(" + rd(f[0]) + "," + rd(f[1]) + ")"); });
    r.register_command("make", "", GeneratorSchema, [=](Workspace&, std::span<const std::string_view> a, std::ostream&) { auto f = args_filter(a); if (f.size() < 2) return; wr(f[1], "make(" + std::string(f[0]) + ")"); });
    r.register_command("first", "", IOSchema{-1, 0}, [=](Workspace&, std::span<const std::string_view> a, std::ostream&) { auto f = args_filter(a); if (f.size() < 2) return; wr(f[0], "first(" + std::string(f[1]) + ")"); });
    r.register_command("show", "", TerminatorSchema, [=](Workspace&, std::span<const std::string_view> a, std::ostream&) { auto f = args_filter(a); if (f.empty()) return; wr("shown", rd(f[0])); });
    r.register_command("copy", "", IndependentSchema, [=](Workspace&, std::span<const std::string_view> a, std::ostream&) { if (a.size() < 2 || !a[0].starts_with('$') || !a[1].starts_with('$')) return; wr(a[1], rd(a[0])); });
    return r;
}
static void run(World& W, const CommandRegistry& r, const std::vector<QueuedCommand>& p) { for (auto& c : p) { std::vector<std::string_view> a(c.args.begin(), c.args.end()); std::ostringstream o; r.execute(W.w, c.name, a, o); } }
PROPW(optimizer, 4, "the pipeline is rewritten")
{
    static const char* F[] = {"1", "1.0", "1e0", "0.1e1", "01", "1.5", "2", "-1", "0", "10", "1.0000001", " 1"}; static const char* POL[] = {"seq", "par", "par_unseq", "unseq"}; std::vector<QueuedCommand> p; std::size_t n = 1 + s.draw(5); std::string prev; bool api = s.chance(1, 3);
    auto user = [&]() -> std::string { if (s.chance(1, 5)) return s.pick({std::string("$pipe_0"), std::string("$_t"), std::string("$a__pipe_0"), std::string("$__pipe"), std::string("$$__pipe_0")}); return s.chance(1, 6) ? "f.dbmp" : s.pick({std::string("$a"), std::string("$b"), std::string("$c"), std::string("$d")}); };
    for (std::size_t i = 0; i < n; ++i)
    {   // as the interpreter builds them: stage i writes $__pipe_i, stage i+1 alone reads it; or explicit commands naming their variables
        bool last = i + 1 == n; std::string next = last ? (s.flip() ? user() : "") : (api && s.flip() ? user() : "$__pipe_" + std::to_string(i)); QueuedCommand c; std::size_t k = prev.empty() && i == 0 && s.chance(1, 3) ? 6 + s.draw(1) : s.draw(5); std::string in = prev.empty() ? user() : prev, out = next.empty() ? user() : next;
        switch (k) { case 0: c = {"dct2", {in, out}}; break; case 1: c = {"idct2", {in, out}}; break; case 2: c = {"multiply", {in, out, F[s.draw(11)]}}; break; case 3: c = {s.flip() ? "neg" : "half", {in, out}}; break; case 4: if (s.chance(1, 3)) { c = {"join", {in, user(), out}}; } else c = {"dct2", {in, out}}; break; case 5: if (last && s.flip()) { c = {"show", {in}}; } else if (api && in[0] == '$' && out[0] == '$') { c = {"copy", {in, out}}; } else c = {"idct2", {in, out}}; break; case 6: c = {"make", {"7", out}}; break; default: c = {"first", {out, "5"}}; }
        if (s.chance(1, 6) && c.name != "copy") c.args.insert(c.args.begin() + static_cast<long>(s.draw(c.args.size())), POL[s.draw(3)]); p.push_back(c); prev = last ? "" : out; if (api && s.chance(1, 4)) prev.clear();
    }
    World A, B; for (auto* W : {&A, &B}) { W->w.store("a", std::string("A")); W->w.store("b", std::string("B")); if (s.flip()) W->w.store("c", std::string("C")); W->files["f.dbmp"] = "F"; } if (!A.w.retrieve<std::string>("c") != !B.w.retrieve<std::string>("c")) { A.w.remove("c"); B.w.remove("c"); } auto ra = sym(A), rb = sym(B); auto show = [](const std::vector<QueuedCommand>& q) { std::string t; for (auto& c : q) { t += c.name; for (auto& a : c.args) t += " " + a; t += " | "; } return t; };
    // a temporary is read once, right after it is written: drop pipelines of the generator that break this
    for (std::size_t i = 0; i < p.size(); ++i) for (auto& a : p[i].args) if (a.rfind("$__pipe_", 0) == 0) { std::size_t j = static_cast<std::size_t>(std::stoul(a.substr(8))); if (!(j == i || j + 1 == i)) return; }
    s.desc << show(p); auto q = p; std::ostringstream o; PeepholeOptimizer<std::vector<QueuedCommand>>::optimize(q, rb, o); s.nontrivial(show(p) != show(q)); run(A, ra, p); run(B, rb, q); std::map<std::string, std::string> ua, ub; for (auto& [k, v] : A.w.memory_store) if (k.rfind("__pipe_", 0) != 0) ua[k] = std::any_cast<std::string>(v); for (auto& [k, v] : B.w.memory_store) if (k.rfind("__pipe_", 0) != 0) ub[k] = std::any_cast<std::string>(v); auto st = [](auto& m) { std::string t; for (auto& [k, v] : m) t += k + "=" + v + " "; return t; }; REQ(ua == ub, "optimized to " << show(q) << "variables " << st(ub) << "expected " << st(ua)); REQ(A.files == B.files, "optimized to " << show(q) << "files " << st(B.files) << "expected " << st(A.files));
    std::list<QueuedCommand> l(p.begin(), p.end()); PeepholeOptimizer<std::list<QueuedCommand>>::optimize(l, ra, o); REQ(show(std::vector<QueuedCommand>(l.begin(), l.end())) == show(q), "the optimizer treats a list differently"); auto q2 = q; PeepholeOptimizer<std::vector<QueuedCommand>>::optimize(q2, rb, o); REQ(show(q2) == show(q), "optimizing again changes the pipeline");
}
