// C25: interactive and one-shot sessions of the command-line program against a model of the workspace
// vp-flags: -noasan -O0
// vp-obj: cli_main
#include "img.h"
#include "image_io.h"
#include <charconv>
#include <unistd.h>
#include <filesystem>
#include <variant>
#include <functional>
using namespace g;
namespace fs = std::filesystem;
using TinyDIP::RGB; using TinyDIP::RGB_DOUBLE; using TinyDIP::HSV;
typedef Image<double> D; typedef Image<RGB> C; typedef Image<std::uint8_t> U; typedef Image<RGB_DOUBLE> E; typedef Image<HSV> H;
typedef std::vector<D> VD; typedef std::vector<C> VC; typedef std::vector<U> VU; typedef std::vector<E> VE;
typedef std::variant<D, C, U, E, H, VD, VC, VU, VE, std::size_t> Val;
typedef std::optional<Val> OV;
typedef std::vector<std::string> VS;
int tinydip_main(int, char**);
template<class T> constexpr bool isvec = false; template<class T> constexpr bool isvec<std::vector<T>> = true;
enum { kD, kC, kU, kE, kH, kVD, kVC, kVU, kVE, kN };
static bool img2(const Val& v) { return v.index() <= kE; }
static std::string num(double v) { char b[64]; auto r = std::to_chars(b, b + 64, v); return std::string(b, r.ptr); }
static Sz vsz(const Val& v) { return std::visit([](auto& x) -> Sz { if constexpr (requires { x.getSize(); }) return x.getSize(); else return {}; }, v); }

// ---- library oracle for the transforms, by documented input type; nullopt = the command reports an error
template<class F> static OV same_type(const Val& v, F f) { switch (v.index()) { case kD: return f(std::get<D>(v)); case kC: return f(std::get<C>(v)); case kU: return f(std::get<U>(v)); case kE: return f(std::get<E>(v)); } return std::nullopt; }
static OV m_mul(const Val& v, double k) { switch (v.index()) { case kD: return TinyDIP::multiplies(std::get<D>(v), k); case kC: return TinyDIP::multiplies(std::get<C>(v), k); case kU: return TinyDIP::multiplies(std::get<U>(v), k); case kE: return TinyDIP::multiplies(std::get<E>(v), k); } return std::nullopt; }
static OV m_dct(const Val& v) { switch (v.index()) { case kD: return TinyDIP::dct2(std::get<D>(v)); case kC: return TinyDIP::dct2(std::get<C>(v)); case kU: return TinyDIP::dct2(std::get<U>(v)); case kE: return TinyDIP::dct2(std::get<E>(v)); } return std::nullopt; }
static OV m_idct(const Val& v) { switch (v.index()) { case kD: return TinyDIP::idct2(std::get<D>(v)); case kC: return TinyDIP::idct2(std::get<C>(v)); case kU: return TinyDIP::idct2(std::get<U>(v)); case kE: return TinyDIP::idct2(std::get<E>(v)); } return std::nullopt; }
static OV m_plane(const Val& v, std::size_t c)
{
    if (auto p = std::get_if<C>(&v)) { U o(std::vector<std::uint8_t>(data(*p).size()), p->getSize()); for (std::size_t i = 0; i < data(*p).size(); ++i) o.set(i) = data(*p)[i].channels[c]; return o; }
    if (auto p = std::get_if<E>(&v)) { D o(std::vector<double>(data(*p).size()), p->getSize()); for (std::size_t i = 0; i < data(*p).size(); ++i) o.set(i) = data(*p)[i].channels[c]; return o; }
    return std::nullopt;
}
static OV m_sub(const Val& v, std::size_t x, std::size_t y, std::size_t w, std::size_t h)
{
    auto f = [&](auto& im) -> OV { using I = std::remove_cvref_t<decltype(im)>; using T = typename std::remove_cvref_t<decltype(data(im))>::value_type; auto z = im.getSize(); if (x > z[0] || w > z[0] - x || y > z[1] || h > z[1] - y) return std::nullopt; std::vector<T> d; for (std::size_t j = 0; j < h; ++j) for (std::size_t i = 0; i < w; ++i) d.push_back(px(im, x + i, y + j)); return I(d, Sz{w, h}); };
    if (auto p = std::get_if<H>(&v)) return f(*p); return same_type(v, f);
}
struct Stage { std::string cmd; VS args; int in = 0, out = 1; bool pol = true; std::function<OV(const Val&)> f; };
static Stage gtrans(Src& s, std::size_t kind, const Val* hint)
{
    Stage t; Sz z = hint ? vsz(*hint) : Sz{4, 4}; if (z.size() != 2) z = {4, 4};
    switch (kind)
    {
    case 0: { double k = s.pick({2.0, 0.5, -1.5, 3.0, 0.0, 0.25}); t.cmd = "multiply"; t.args = {num(k)}; t.f = [k](const Val& v) { return m_mul(v, k); }; break; }
    case 1: { std::size_t w = s.uz(1, 6), h = s.uz(1, 6); t.cmd = "bicubic_resize"; t.args = {std::to_string(w), std::to_string(h)}; t.f = [w, h](const Val& v) { return same_type(v, [&](auto& i) -> OV { return TinyDIP::copyResizeBicubic(i, w, h); }); }; break; }
    case 2: { std::size_t w = s.uz(1, 6), h = s.uz(1, 6), a = s.uz(1, 4); bool d = s.flip(); t.cmd = "lanczos_resample"; t.args = {std::to_string(w), std::to_string(h)}; if (!d) t.args.push_back(std::to_string(a)); else a = 3; t.f = [w, h, a](const Val& v) { return same_type(v, [&](auto& i) -> OV { return TinyDIP::lanczos_resample(i, w, h, static_cast<int>(a)); }); }; break; }
    case 3: t.cmd = "dct2"; t.f = m_dct; break;
    case 4: t.cmd = "idct2"; t.f = m_idct; break;
    case 5: { std::size_t c = s.draw(2); t.cmd = std::string("get") + "RGB"[c] + "plane"; t.f = [c](const Val& v) { return m_plane(v, c); }; break; }
    case 6: t.cmd = "im2double"; t.f = [](const Val& v) -> OV { if (v.index() == kC) return TinyDIP::im2double(std::get<C>(v)); if (v.index() == kU) return TinyDIP::im2double(std::get<U>(v)); return std::nullopt; }; break;
    case 7: t.cmd = "im2uint8"; t.f = [](const Val& v) -> OV { if (v.index() == kD) return TinyDIP::im2uint8(std::get<D>(v)); if (v.index() == kE) return TinyDIP::im2uint8(std::get<E>(v)); return std::nullopt; }; break;
    case 8: t.cmd = "normalize"; t.f = [](const Val& v) -> OV { if (v.index() == kD) return TinyDIP::normalize(std::get<D>(v)); return std::nullopt; }; break;
    case 9: { double a = s.dyadic(3, 16); if (prod(z) > 200) a = 0; t.cmd = "rotate"; t.args = {num(a)}; t.f = [a](const Val& v) { return same_type(v, [&](auto& i) -> OV { return TinyDIP::rotate_detail_shear_transformation(i, a); }); }; break; }
    case 10: { std::size_t x = s.draw(z[0]), y = s.draw(z[1]), w = s.uz(1, std::max<std::size_t>(1, z[0] - std::min(x, z[0] - 1))), h = s.uz(1, std::max<std::size_t>(1, z[1] - std::min(y, z[1] - 1))); if (s.chance(1, 12)) x = ~std::size_t{0} - s.draw(3); if (s.chance(1, 12)) h = ~std::size_t{0} - s.draw(3); t.cmd = "subimage"; t.args = {std::to_string(x), std::to_string(y), std::to_string(w), std::to_string(h)}; t.f = [=](const Val& v) { return m_sub(v, x, y, w, h); }; break; }
    case 12: { std::size_t l = s.uz(0, 4); double sg = s.pick({0.25, 0.4, 0.5, 1.6}), k = s.pick({1.25, 2.0, std::numbers::sqrt2}); std::size_t given = s.draw(3); t.cmd = "sift_generate_octave"; t.pol = false; if (given > 0) t.args.push_back(std::to_string(l)); else l = 5; if (given > 1) t.args.push_back(num(sg)); else sg = 1.6; if (given > 2) t.args.push_back(num(k)); else k = std::numbers::sqrt2; t.f = [=](const Val& v) -> OV { try { if (v.index() == kD) return TinyDIP::SIFT_impl::generate_octave(std::get<D>(v), l, sg, k); if (v.index() == kU) return TinyDIP::SIFT_impl::generate_octave(TinyDIP::im2double(std::get<U>(v)), l, sg, k); } catch (const std::exception&) {} return std::nullopt; }; break; }
    default: t.cmd = "hsv2rgb"; t.f = [](const Val& v) -> OV { if (v.index() == kH) return TinyDIP::hsv2rgb(std::get<H>(v)); return std::nullopt; };
    }
    return t;
}
// commands on HSV images other than these depend on arithmetic of hue; they are left to the library properties
static std::size_t gkind(Src& s, const Val* v) { if (v && v->index() == kH) return s.flip() ? 10 : 11; return s.draw(12); }
static Stage gelem(Src& s, const Val& v)
{   // container stages
    Stage t; t.pol = false; std::size_t i = s.draw(3); auto idx = std::to_string(i);
    auto onv = [](const Val& v, auto f) -> OV { return std::visit([&](auto& x) -> OV { if constexpr (isvec<std::remove_cvref_t<decltype(x)>>) return f(x); else return std::nullopt; }, v); };
    switch (s.draw(3))
    {
    case 3: t.cmd = "dct3"; t.pol = true; t.f = [](const Val& v) -> OV { if (auto p = std::get_if<VD>(&v)) return TinyDIP::dct3(*p); return std::nullopt; }; break;
    case 0: t.cmd = "get_element"; t.args = {idx}; t.f = [=](const Val& v) { return onv(v, [&](auto& x) -> OV { if (i >= x.size()) return std::nullopt; return Val(x[i]); }); }; break;
    case 1: t.cmd = "erase_element"; t.args = {idx}; t.f = [=](const Val& v) { return onv(v, [&](auto& x) -> OV { if (i >= x.size()) return std::nullopt; auto y = x; y.erase(y.begin() + static_cast<std::ptrdiff_t>(i)); return y; }); }; break;
    default: t.cmd = "create_container"; t.f = [](const Val& v) -> OV { switch (v.index()) { case kD: return VD{std::get<D>(v)}; case kC: return VC{std::get<C>(v)}; case kU: return VU{std::get<U>(v)}; case kE: return VE{std::get<E>(v)}; } return std::nullopt; };
    }
    return t;
}
static Stage gcount(Src& s, const Val& v)
{
    Stage t; t.cmd = "count"; t.out = 2; double x = 0; if (auto p = std::get_if<D>(&v); p && data(*p).size()) x = data(*p)[s.draw(data(*p).size() - 1)]; else if (auto q = std::get_if<U>(&v); q && data(*q).size()) x = data(*q)[s.draw(data(*q).size() - 1)]; t.args = {num(x)};
    t.f = [x](const Val& v) -> OV { if (auto p = std::get_if<D>(&v)) return static_cast<std::size_t>(std::count(data(*p).begin(), data(*p).end(), x)); if (auto q = std::get_if<U>(&v)) return static_cast<std::size_t>(std::count(data(*q).begin(), data(*q).end(), static_cast<std::uint8_t>(x))); return std::nullopt; }; return t;
}
static Stage ggen(Src& s)
{
    Stage t; t.in = -1; t.out = 0; std::size_t w = s.uz(1, 6), h = s.uz(1, 6); auto ws = std::to_string(w), hs = std::to_string(h); t.pol = false;
    switch (s.draw(3))
    {
    case 0: case 1: { bool one = s.flip(); t.cmd = one ? "ones" : "zeros"; t.args = {ws, hs}; t.f = [=](const Val&) -> OV { return D(std::vector<double>(w * h, one ? 1.0 : 0.0), Sz{w, h}); }; break; }
    case 2: { std::size_t k = s.uz(1, 4); t.pol = true; bool d = s.chance(1, 4); t.cmd = "grid"; t.args = {ws, hs}; if (d) k = 10; else t.args.push_back(std::to_string(k)); t.f = [=](const Val&) -> OV { std::vector<RGB> v; for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) { std::uint8_t b = x % k == 0 || y % k == 0 ? 0 : 255; RGB p; p.channels[0] = p.channels[1] = p.channels[2] = b; v.push_back(p); } return C(v, Sz{w, h}); }; break; }
    default: { std::size_t cx = s.draw(6), cy = s.draw(6); double sg = s.pick({0.5, 1.0, 2.5}); t.cmd = "gaussian_figure_2d"; t.args = {ws, hs, std::to_string(cx), std::to_string(cy), num(sg)}; t.f = [=](const Val&) -> OV { return TinyDIP::gaussianFigure2D(w, h, cx, cy, sg); }; }
    }
    return t;
}
// ---- running the program
struct Swap { std::streambuf *i, *o, *e; std::istringstream in; std::ostringstream out, err; Swap(const std::string& t) : in(t) { i = std::cin.rdbuf(in.rdbuf()); o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); std::cin.clear(); } ~Swap() { std::cin.rdbuf(i); std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cin.clear(); } };
static std::string session(const VS& lines) { std::string t; for (auto& l : lines) t += l + "\n"; Swap w(t); char n[] = "tinydip"; char* av[] = {n, nullptr}; int rc = tinydip_main(1, av); REQ(rc == 0, "the session ends with status " << rc); return w.out.str(); }
static std::string oneshot(const VS& a) { Swap w(""); std::vector<std::string> c{"tinydip"}; for (auto& x : a) c.push_back(x); std::vector<char*> av; for (auto& x : c) av.push_back(x.data()); av.push_back(nullptr); int rc = tinydip_main(static_cast<int>(c.size()), av.data()); REQ(rc == 0, "the program ends with status " << rc); return w.out.str(); }
static std::string dir() { static int n = 0; std::string d = pbt::scratch() + "/cli" + std::to_string(getpid()) + "_" + std::to_string(n++); fs::create_directories(d); return d; }
struct DirGuard { std::string d = dir(); ~DirGuard() { std::error_code e; fs::remove_all(d, e); } };
static std::string ext(const Val& v) { return v.index() == kD ? ".dbmp" : v.index() == kC ? ".bmp" : v.index() == kH ? ".hsv" : ""; }
static void put(const std::string& base, const Val& v) { if (auto p = std::get_if<D>(&v)) TinyDIP::double_image::write(base.c_str(), *p); else if (auto q = std::get_if<C>(&v)) TinyDIP::bmp_write(base.c_str(), *q); else if (auto h = std::get_if<H>(&v)) TinyDIP::hsv_write(base.c_str(), *h); }
template<class T> static void cmp(const Image<T>& got, const Image<T>& want, double tol, const std::string& what) { if constexpr (std::is_same_v<T, double> || std::is_same_v<T, HSV>) req_close(got, want, tol, tol, what); else req_eq(got, want, what); }
static void check_file(const std::string& base, const Val& v, double tol, const std::string& what)
{
    std::string f = base + ext(v); REQ(fs::exists(f), what << ": no file " << fs::path(f).filename().string());
    if (auto p = std::get_if<D>(&v)) cmp(TinyDIP::double_image::read(f.c_str(), true), *p, tol, what); else if (auto q = std::get_if<C>(&v)) cmp(TinyDIP::bmp_read(f.c_str(), true), *q, tol, what); else if (auto h = std::get_if<H>(&v)) cmp(TinyDIP::hsv_read(f.c_str(), true), *h, tol, what);
}
// ---- listing
struct Row { std::string type; std::vector<unsigned long long> nums; bool operator==(const Row&) const = default; };
typedef std::map<std::string, Row> Snap;
template<class T> static std::string tname() { if constexpr (std::is_same_v<T, D>) return "TinyDIP::Image<double>"; else if constexpr (std::is_same_v<T, C>) return "TinyDIP::Image<TinyDIP::RGB>"; else if constexpr (std::is_same_v<T, U>) return "TinyDIP::Image<unsigned char>"; else if constexpr (std::is_same_v<T, E>) return "TinyDIP::Image<TinyDIP::RGB_DOUBLE>"; else if constexpr (std::is_same_v<T, H>) return "TinyDIP::Image<TinyDIP::HSV>"; else if constexpr (isvec<T>) return "std::vector<" + tname<typename T::value_type>() + " >"; else return "long unsigned int"; }
static Row row(const Val& v) { return std::visit([](auto& x) { using T = std::remove_cvref_t<decltype(x)>; Row r; r.type = tname<T>(); if constexpr (std::is_same_v<T, std::size_t>) r.nums = {x}; else if constexpr (requires { x.getSize(); }) for (auto k : x.getSize()) r.nums.push_back(k); else { r.nums.push_back(x.size()); if (x.size()) for (auto k : x[0].getSize()) r.nums.push_back(k); } return r; }, v); }
static Snap snap(const std::map<std::string, Val>& m) { Snap r; for (auto& [k, v] : m) r[k] = row(v); return r; }
static std::vector<Snap> listings(const std::string& out)
{
    std::vector<Snap> r; std::istringstream is(out); std::string l; bool in = false;
    while (std::getline(is, l))
    {
        if (l.find("Current Workspace Variables:") != std::string::npos) { r.emplace_back(); in = true; continue; }
        if (!in) continue; if (l.rfind("  $", 0) != 0) { in = false; continue; }
        auto c = l.find(" : ["); if (c == std::string::npos) { r.back()[l] = {}; continue; } std::string n = l.substr(3, c - 3); while (!n.empty() && n.back() == ' ') n.pop_back(); std::size_t e = c + 4; int depth = 1; while (e < l.size() && depth) { if (l[e] == '[') ++depth; if (l[e] == ']') --depth; ++e; } Row w; w.type = l.substr(c + 4, e - c - 5); std::string rest = l.substr(e); for (std::size_t i = 0; i < rest.size();) { if (std::isdigit(static_cast<unsigned char>(rest[i]))) { std::size_t q; w.nums.push_back(std::stoull(rest.substr(i), &q)); i += q; } else ++i; } r.back()[n] = w;
    }
    return r;
}
static std::string show(const Snap& s) { std::string o = "{"; for (auto& [k, v] : s) { o += k + ":" + v.type; for (auto n : v.nums) o += " " + std::to_string(n); o += "; "; } return o + "}"; }
static std::string join(Src& s, const VS& t) { std::string o; if (s.chance(1, 8)) o += " "; for (std::size_t i = 0; i < t.size(); ++i) o += (i ? (s.chance(1, 8) ? " \t " : " ") : "") + t[i]; if (s.chance(1, 8)) o += " "; return o; }
static void policy(Src& s, VS& a, std::size_t from = 0) { static const char* P[] = {"seq", "par", "par_unseq", "unseq"}; if (s.flip()) a.insert(a.begin() + static_cast<std::ptrdiff_t>(from + s.draw(a.size() - from)), P[s.draw(3)]); }
static VS tok(Src& s, const Stage& t, const std::string* in, const std::string* out)
{
    VS a = t.args; if (in && t.in >= 0) a.insert(a.begin() + t.in, *in); if (out && t.out >= 0) { std::size_t p = static_cast<std::size_t>(t.out) - (in || t.in < 0 ? 0 : 1); a.insert(a.begin() + static_cast<std::ptrdiff_t>(std::min(p, a.size())), *out); }
    if (t.pol) policy(s, a); a.insert(a.begin(), t.cmd); return a;
}
static bool safe_after(const std::string& a, const std::string& b) { return !((a == "dct2" && b == "idct2") || (a == "idct2" && b == "dct2")); }

struct Model
{
    std::map<std::string, Val> ws, files; std::map<std::string, std::map<std::string, Val>> dirs; std::string root; VS lines; std::vector<Snap> want;
    void vars() { lines.push_back("vars"); want.push_back(snap(ws)); }
};
static std::string var(Src& s) { static const char* N[] = {"a", "b", "c", "d", "e_1", "X"}; return N[s.draw(5)]; }
static std::string in_var(Src& s, const Model& m) { if (m.ws.empty() || s.chance(1, 10)) return var(s); auto it = m.ws.begin(); std::advance(it, static_cast<std::ptrdiff_t>(s.draw(m.ws.size() - 1))); return it->first; }
static void init_files(Src& s, Model& m)
{
    if (s.flip()) { auto d = m.root + "/w0"; fs::create_directories(d); D q = gen(s, Sz{s.uz(1, 4), s.uz(1, 4)}, [](Src& x) { return x.dyadic(99, 8); }); TinyDIP::double_image::write_to_csv((d + "/q.csv").c_str(), q); C r = rgbimg(s, Sz{s.uz(1, 4), s.uz(1, 4)}); TinyDIP::pnm::write(r, fs::path(d + "/r.ppm"), "P3"); m.dirs[d]["q.csv"] = q; m.dirs[d]["r.ppm"] = r; }
    for (int i = 0; i < 3; ++i) { Sz z{s.uz(1, 6), s.uz(1, 6)}; Val v; switch (i) { case 0: v = gen(s, z, [](Src& t) { return t.dyadic(255, 8); }); break; case 1: v = rgbimg(s, z); break; default: v = gen(s, z, [](Src& t) { HSV h; h.channels[0] = static_cast<double>(t.draw(359)); h.channels[1] = t.unit(); h.channels[2] = static_cast<double>(t.draw(255)); return h; }); } std::string b = m.root + "/f" + std::to_string(i); put(b, v); m.files[b + ext(v)] = v; }
}
static void store_out(Model& m, const std::string& out, const OV& r) { if (r) m.ws[out] = *r; }
static void save(Model& m, const std::string& base, const OV& v, const std::string& given)
{   // writing to a file: only double, RGB and HSV images can be written
    if (v && !ext(*v).empty()) m.files[base + ext(*v)] = *v; (void)given;
}
static bool one_line(Src& s, Model& m)
{   // returns whether the line did something beyond generating a constant
    std::string a = in_var(s, m), b = var(s), A = "$" + a, B = "$" + b; auto it = m.ws.find(a); const Val* v = it == m.ws.end() ? nullptr : &it->second; static const std::string NONE = "$nonexistent";
    auto apply = [&](const Stage& t, const Val* x) -> OV { if (t.in < 0) return t.f(Val{}); if (!x) return std::nullopt; return t.f(*x); };
    switch (s.draw(19))
    {
    case 0: case 1: { Stage t = ggen(s); m.lines.push_back(join(s, tok(s, t, nullptr, &B))); store_out(m, b, t.f(Val{})); return false; }
    case 2: case 3: { auto f = m.files.begin(); std::advance(f, static_cast<std::ptrdiff_t>(s.draw(m.files.size() - 1))); bool named = s.chance(3, 4); m.lines.push_back(join(s, named ? VS{"read", f->first, B} : VS{"read", f->first})); m.ws[named ? b : fs::path(f->first).stem().string()] = f->second; return true; }
    case 4: case 5: case 6: { Stage t = gtrans(s, gkind(s, v), v); m.lines.push_back(join(s, tok(s, t, &A, &B))); store_out(m, b, apply(t, v)); return true; }
    case 7: case 8: case 9: case 10:
    {   // pipeline
        OV cur; std::vector<VS> segs; std::string prev; bool from_file = false; std::vector<Stage> st; std::size_t n = s.uz(1, 3);
        bool gsrc = !v || s.chance(1, 3); if (gsrc && s.flip()) { auto f = m.files.begin(); std::advance(f, static_cast<std::ptrdiff_t>(s.draw(m.files.size() - 1))); Stage t; t.cmd = "read"; t.args = {f->first}; t.in = -1; t.out = 1; t.pol = false; Val fv = f->second; t.f = [fv](const Val&) -> OV { return fv; }; st.push_back(t); from_file = true; } else if (gsrc) st.push_back(ggen(s));
        if (gsrc) cur = st[0].f(Val{}); else if (v) cur = *v; (void)from_file;
        for (std::size_t i = 0; i < n; ++i)
        {
            Stage t; for (int k = 0;; ++k) { if (cur && cur->index() >= kVD && cur->index() <= kVE) t = gelem(s, *cur); else if (cur && s.chance(1, 8) && img2(*cur)) t = s.flip() ? gcount(s, *cur) : gelem(s, *cur); else t = gtrans(s, gkind(s, cur ? &*cur : nullptr), cur ? &*cur : nullptr); if (st.empty() || safe_after(st.back().cmd, t.cmd) || k > 8) break; }
            if (!st.empty() && !safe_after(st.back().cmd, t.cmd)) break; if (cur) cur = t.f(*cur); st.push_back(t);
        }
        if (st.empty()) { m.lines.push_back(""); return false; }
        bool bad = s.chance(1, 15); std::size_t badpos = s.draw(st.size() - 1); int end = st.size() == 1 ? static_cast<int>(s.draw(1)) * 2 : static_cast<int>(s.draw(3)); std::string f = m.root + "/p" + std::to_string(s.draw(2));
        for (std::size_t i = 0; i < st.size(); ++i) { bool last = i + 1 == st.size(); Stage t = st[i]; if (bad && i == badpos) t.cmd = "frobnicate"; segs.push_back(tok(s, t, i == 0 && t.in >= 0 ? &A : nullptr, last && end == 1 ? &B : nullptr)); }
        if (end == 0) segs.push_back({B}); else if (end == 2) segs.push_back({"write", f}); else if (end == 3) segs.push_back({s.flip() ? "info" : "print"});
        std::string l; for (std::size_t i = 0; i < segs.size(); ++i) { if (i) l += s.chance(1, 10) ? " | | " : s.flip() ? " | " : "|"; l += join(s, segs[i]); } m.lines.push_back(l);
        if (bad) return true; if (end <= 1) store_out(m, b, cur); else if (end == 2) save(m, f, cur, f); return true;
    }
    case 11: m.lines.push_back(join(s, {"copy", A, B})); if (v) { Val c = *v; m.ws[b] = c; } return v != nullptr;
    case 12: m.lines.push_back(join(s, {"rename", A, B})); if (v) { Val c = *v; m.ws.erase(a); m.ws[b] = c; } return v != nullptr;
    case 13: if (s.chance(1, 8)) { m.lines.push_back("remove all"); m.ws.clear(); } else { bool second = s.flip(); m.lines.push_back(join(s, {"remove", A, second ? B : "b"})); m.ws.erase(a); if (second) m.ws.erase(b); } return true;
    case 14: case 15:
    {   // containers
        if (v && v->index() >= kVD && v->index() <= kVE && s.flip())
        {
            if (s.flip()) { std::string e = in_var(s, m); m.lines.push_back(join(s, {"append_element", A, "$" + e, B})); auto x = m.ws.find(e); if (x != m.ws.end()) { OV r = std::visit([&](auto& c) -> OV { if constexpr (isvec<std::remove_cvref_t<decltype(c)>>) { using T = typename std::remove_cvref_t<decltype(c)>::value_type; if (auto p = std::get_if<T>(&x->second)) { auto d = c; d.push_back(*p); return d; } } return std::nullopt; }, *v); store_out(m, b, r); } return true; }
            OV first = std::visit([](auto& c) -> OV { if constexpr (isvec<std::remove_cvref_t<decltype(c)>>) if (c.size()) return Val(c[0]); return std::nullopt; }, *v); Stage t = gtrans(s, s.draw(10), first ? &*first : nullptr); VS a1{A, B, t.cmd}; for (auto& x : t.args) a1.push_back(x); policy(s, a1); a1.insert(a1.begin(), "transform_container"); m.lines.push_back(join(s, a1));
            OV r = std::visit([&](auto& c) -> OV { if constexpr (isvec<std::remove_cvref_t<decltype(c)>>) { if (c.empty()) return c; std::vector<Val> o; for (auto& e : c) { OV x = t.f(Val(e)); if (!x) return std::nullopt; o.push_back(*x); } auto build = [&]<class T>(std::vector<T>) -> OV { std::vector<T> q; for (auto& e : o) { if (!std::holds_alternative<T>(e)) return std::nullopt; q.push_back(std::get<T>(e)); } return q; }; switch (o[0].index()) { case kD: return build(VD{}); case kC: return build(VC{}); case kU: return build(VU{}); case kE: return build(VE{}); } } return std::nullopt; }, *v); store_out(m, b, r); return true;
        }
        if (!v) return false; Stage t = gelem(s, *v); if (v->index() >= kH && v->index() <= kH) return false; if (v->index() == kN) return false; if (v->index() >= kVD && t.cmd == "create_container") return false; m.lines.push_back(join(s, tok(s, t, &A, &B))); store_out(m, b, t.f(*v)); return true;
    }
    case 16: { if (!v || v->index() > kU || v->index() == kC) return false;
        if (s.chance(1, 3)) { std::string n = in_var(s, m); auto x = m.ws.find(n); VS l{A, "$" + n, B}; policy(s, l); l.insert(l.begin(), "count"); if (x != m.ws.end() && x->second.index() == kN && std::get<std::size_t>(x->second) > 255) return false; m.lines.push_back(join(s, l)); if (x != m.ws.end() && x->second.index() == kN) { double w = static_cast<double>(std::get<std::size_t>(x->second)); std::size_t c = 0; if (auto p = std::get_if<D>(v)) c = static_cast<std::size_t>(std::count(data(*p).begin(), data(*p).end(), w)); else for (auto e : data(std::get<U>(*v))) c += e == w; m.ws[b] = c; } return true; }
        Stage t = gcount(s, *v); m.lines.push_back(join(s, tok(s, t, &A, &B))); store_out(m, b, t.f(*v)); return true; }
    case 17:
    {   // constructRGB from byte planes
        std::string g = in_var(s, m), c = in_var(s, m); VS t{A, "$" + g, "$" + c, B}; policy(s, t); t.insert(t.begin(), "constructRGB"); m.lines.push_back(join(s, t)); auto pl = [&](const std::string& n) -> const U* { auto x = m.ws.find(n); return x == m.ws.end() ? nullptr : std::get_if<U>(&x->second); }; auto r0 = pl(a), g0 = pl(g), b0 = pl(c);
        if (r0 && g0 && b0 && r0->getSize() == g0->getSize() && r0->getSize() == b0->getSize()) { std::vector<RGB> d; for (std::size_t i = 0; i < data(*r0).size(); ++i) { RGB p; p.channels[0] = data(*r0)[i]; p.channels[1] = data(*g0)[i]; p.channels[2] = data(*b0)[i]; d.push_back(p); } m.ws[b] = C(d, r0->getSize()); } return true;
    }
    case 18:
    {   // workspace bundles and files
        std::string d = m.root + "/w" + std::to_string(s.draw(1));
        switch (s.draw(3))
        {
        case 0:
        {   // two files of different type under the same name would make loading ambiguous: not generated
            auto& t = m.dirs[d]; for (auto& [k, x] : m.ws) for (auto& [n, y] : t) if (!ext(x).empty() && fs::path(n).stem().string() == k && n != k + ext(x)) return false;
            m.lines.push_back(join(s, {"save_workspace", d})); for (auto& [k, x] : m.ws) if (!ext(x).empty()) t[k + ext(x)] = x; return true;
        }
        case 1: m.lines.push_back(join(s, {"load_workspace", d})); if (m.dirs.count(d)) for (auto& [k, x] : m.dirs[d]) m.ws[fs::path(k).stem().string()] = x; return true;
        default: { std::string f = m.root + "/o" + std::to_string(s.draw(2)); std::string e = v ? ext(*v) : ""; m.lines.push_back(join(s, {"write", A, f + (s.flip() ? e : "")})); if (v) save(m, f, *v, f); return v != nullptr; }
        }
    }
    default:
    {   // lines that change nothing
        static const char* N[] = {"", "   ", "|", " | | ", "help", "info $a", "print $b", "frobnicate $a $b", "multiply $a", "multiply $a $b", "multiply $a $b xyz", "bicubic_resize $a $b -3 4", "subimage $a $b 0 0 1", "rename $a b", "copy a $b", "get_element $a b 0", "remove a", "load_workspace /nonexistent", "grid $a 3", "zeros $a", "zeros $a x 3", "rotate $nonexistent $a 1", "im2double par $nonexistent $a", "write $nonexistent /nonexistent/x", "transform_container $nonexistent $a multiply 2", "batch_add_zeros a", "MULTIPLY $a $b 2", "grid $a 3 3 0", "frobnicate | zeros $a 3 3", "multiply $nonexistent 2 | rotate 1 | $a", "append_element $a", "append_element $a $b c", "append_element $nonexistent $a $b", "count $a", "copy $a", "erase_element $a $b", "erase_element $a b 0", "erase_element $nonexistent $a 0", "get_element $a", "get_element $nonexistent $a 0", "load_workspace", "read", "read /nonexistent.bmp b", "read $nonexistent $a", "rename $a", "save_workspace", "write $a", "write a x.bmp", "write", "print", "info", "info $nonexistent", "print $nonexistent", "transform_container $a", "transform_container $a $b", "constructRGB $a $b $c", "constructRGB $a $nonexistent $c $d", "sift_generate_octave $a", "sift_generate_octave $a b", "sift_generate_octave $nonexistent $a", "get_sift_potential_keypoint $a", "get_sift_potential_keypoint $a b", "gaussian_figure_2d $a 3 3 1 1", "create_container $a", "create_container $a b", "create_container $nonexistent $a", "dct3 $a", "dct3 $nonexistent $a", "to_complex $a", "to_complex $nonexistent $a", "count $nonexistent 1 $a", "count $a $nonexistent $b", "hsv2rgb $a", "normalize $a", "remove $nonexistent", "rename $nonexistent $a", "copy $nonexistent $a", "zeros $a -1 3", "gaussian_figure_2d $a 3 3 1 1 x", "load_plugins /nonexistent"};
        m.lines.push_back(N[s.draw(std::size(N) - 1)]); return false;
    }
    }
}
// observe every value: values that cannot be written directly are taken apart with commands into images that can
static void observe(Model& m, const std::string& name, const Val& v, std::map<std::string, Val>& out)
{
    auto add = [&](const std::string& line, const std::string& n, const Val& x) { m.lines.push_back(line); out[n] = x; };
    switch (v.index())
    {
    case kU: { auto& u = std::get<U>(v); std::vector<RGB> d; for (auto x : data(u)) { RGB p; p.channels[0] = p.channels[1] = p.channels[2] = x; d.push_back(p); } add("constructRGB $" + name + " $" + name + " $" + name + " $zz_" + name, "zz_" + name, C(d, u.getSize())); break; }
    case kE: for (std::size_t c = 0; c < 3; ++c) { auto n = "zz_" + name + "_" + std::to_string(c); add(std::string("get") + "RGB"[c] + "plane $" + name + " $" + n, n, *m_plane(v, c)); } break;
    case kVD: case kVC: case kVU: case kVE: std::visit([&](auto& x) { if constexpr (isvec<std::remove_cvref_t<decltype(x)>>) for (std::size_t i = 0; i < x.size(); ++i) { auto n = "zy_" + name + "_" + std::to_string(i); add("get_element $" + name + " $" + n + " " + std::to_string(i), n, Val(x[i])); observe(m, n, Val(x[i]), out); } }, v); break;
    default: break;
    }
}
static void finish(Src& s, Model& m, double tol)
{
    auto end = m.ws; std::map<std::string, Val> extra; for (auto& [k, v] : end) observe(m, k, v, extra); for (auto& [k, v] : extra) m.ws[k] = v; m.vars(); std::string d = m.root + "/final"; m.lines.push_back("save_workspace " + d); bool ex = s.flip(); if (ex) { m.lines.push_back(s.flip() ? "exit" : " quit "); m.lines.push_back("zeros $late 2 2"); m.lines.push_back("save_workspace " + m.root + "/late"); }
    std::string text; for (auto& l : m.lines) if (l != "vars") text += l + " ; "; std::string r = m.root; for (std::size_t p; (p = text.find(r)) != std::string::npos;) text.replace(p, r.size(), "DIR"); s.desc << text;
    auto out = session(m.lines); auto got = listings(out);
    for (std::size_t i = 0; i < m.want.size(); ++i) { REQ(i < got.size(), "the session ends after " << got.size() << " of " << m.want.size() << " listings"); if (!(got[i] == m.want[i])) { std::size_t n = 0; std::string last; for (auto& l : m.lines) { if (l == "vars") { if (n++ == i) break; } else last = l; } REQ(false, "after \"" << last << "\" the workspace holds " << show(got[i]) << " expected " << show(m.want[i])); } }
    for (auto& [k, v] : m.ws) if (!ext(v).empty()) check_file(d + "/" + k, v, tol, "variable " + k);
    std::size_t n = 0; for (auto& e : fs::directory_iterator(d)) { (void)e; ++n; } std::size_t w = 0; for (auto& [k, v] : m.ws) w += !ext(v).empty(); REQ(n == w, n << " files in the saved workspace, expected " << w); if (ex) REQ(!fs::exists(m.root + "/late"), "commands after exit are executed");
    for (auto& [k, v] : m.files) check_file(k.substr(0, k.size() - ext(v).size()), v, tol, "file " + fs::path(k).filename().string());
}
PROPW(session_history, 5, "at least three lines that transform, copy, rename, remove, read or write a value")
{
    DirGuard g; Model m; m.root = g.d; init_files(s, m); int n = 2 + static_cast<int>(s.draw(14)), work = 0; bool each = s.flip();
    for (int i = 0; i < n; ++i) { work += one_line(s, m); if (each) m.vars(); } s.nontrivial(work >= 3); finish(s, m, 1e-9);
}
PROP(optimized_pipelines, "the pipeline holds an identity or an inverse pair")
{   // pipelines that the optimizer rewrites give the result of their stages one by one
    DirGuard g; Model m; m.root = g.d; init_files(s, m); std::string f = m.root + "/f0.dbmp"; Val v = m.files[f]; m.lines.push_back("read " + f + " $a"); m.ws["a"] = v; std::size_t n = s.uz(2, 5); std::string l; bool nt = false; std::string prev; OV cur = v; std::size_t end = s.draw(2);
    for (std::size_t i = 0; i < n; ++i) { Stage t; switch (s.draw(4)) { case 0: t.cmd = "multiply"; t.args = {s.pick({"1", "1.0", "1e0"})}; t.f = [](const Val& x) -> OV { return x; }; nt = true; break; case 1: t = gtrans(s, 0, nullptr); break; case 2: t.cmd = "dct2"; t.f = m_dct; break; case 3: t.cmd = "idct2"; t.f = m_idct; break; default: t = gtrans(s, 9, &*cur); } nt |= !safe_after(prev, t.cmd); prev = t.cmd; cur = t.f(*cur); std::string A = "$a", B = "$b"; l += (i ? " | " : "") + join(s, tok(s, t, i == 0 ? &A : nullptr, i + 1 == n && end == 1 ? &B : nullptr)); if (i + 1 == n && end == 2) l += " | write " + m.root + "/q"; }
    if (end == 0) l += " | $b"; if (end < 2) m.ws["b"] = *cur; else m.files[m.root + "/q.dbmp"] = *cur; m.lines.push_back(l); s.nontrivial(nt); m.vars(); finish(s, m, 1e-7);
}
PROP(one_shot, "the command succeeds")
{   // TinyDIP <command> <files> does what the library function does
    DirGuard g; Model m; m.root = g.d; init_files(s, m); auto f = m.files.begin(); std::advance(f, static_cast<std::ptrdiff_t>(s.draw(m.files.size() - 1))); Val v = f->second; Stage t = gtrans(s, gkind(s, &v), &v); OV r = t.f(v); std::string base = m.root + "/out", in = f->first; bool ok = r && !ext(*r).empty(); std::string out = base + (ok ? ext(*r) : ".bmp"); bool ppm = ok && r->index() == kC && s.flip(); if (ppm) out = base + ".ppm"; auto tokens = tok(s, t, &in, &out); for (auto& x : tokens) s.desc << (x.rfind(m.root, 0) == 0 ? x.substr(m.root.size()) : x) << " "; s.nontrivial(ok);
    oneshot(tokens); std::size_t n = 0; for (auto& e : fs::directory_iterator(m.root)) { (void)e; ++n; } std::size_t wn = 3u + ok + (fs::exists(m.root + "/w0") ? 1u : 0u); REQ(n == wn, n << " files after the command, expected " << wn); if (ppm) { REQ(fs::exists(out), "no ppm file"); req_eq(TinyDIP::pnm::read(fs::path(out)), std::get<C>(*r), "ppm output"); } else if (ok) check_file(base, *r, 1e-9, "output"); for (auto& [k, x] : m.files) check_file(k.substr(0, k.size() - ext(x).size()), x, 0, "input file");
}
PROP(file_formats, "at least two files with an upper-case extension, a text format or several dots in the name")
{   // the format is the one the extension names, in any case, whatever else the file name holds
    DirGuard g; VS lines; std::map<std::string, Val> ws; std::vector<std::pair<std::string, Val>> outs; std::size_t n = s.uz(1, 4), special = 0; static const char* B[] = {"p", "p.1", "p.bmp", "p.csv.x", "P_q-2", "v1.0.0"};
    auto spell = [&](std::string e) { switch (s.draw(2)) { case 0: break; case 1: for (auto& c : e) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c))); break; default: e[1] = static_cast<char>(std::toupper(static_cast<unsigned char>(e[1]))); } return e; };
    for (std::size_t i = 0; i < n; ++i)
    {
        Sz z{s.uz(1, 6), s.uz(1, 6)}; Val v; switch (s.draw(2)) { case 0: v = gen(s, z, [](Src& t) { return t.dyadic(99, 8); }); break; case 1: v = rgbimg(s, z); break; default: v = gen(s, z, [](Src& t) { HSV h; h.channels[0] = static_cast<double>(t.draw(359)); h.channels[1] = t.unit(); h.channels[2] = static_cast<double>(t.draw(255)); return h; }); }
        bool text_in = v.index() != kH && s.flip(), text_out = v.index() != kH && s.flip(); std::string te = v.index() == kD ? ".csv" : ".ppm", num = std::to_string(i), var = "$v" + num; std::string bi = B[s.draw(5)], bo = B[s.draw(5)];
        std::string ei = spell(text_in ? te : ext(v)), eo = spell(text_out ? te : ext(v)), in = g.d + "/i" + num + bi + ei, out = g.d + "/o" + num + bo + eo;
        if (!text_in) { put(g.d + "/t", v); fs::rename(g.d + "/t" + ext(v), in); } else if (auto p = std::get_if<D>(&v)) TinyDIP::double_image::write_to_csv(in.c_str(), *p); else TinyDIP::pnm::write(std::get<C>(v), fs::path(in), "P3");
        special += (text_in || ei != ext(v) || bi.find('.') != std::string::npos) + (text_out || eo != ext(v) || bo.find('.') != std::string::npos); s.desc << fs::path(in).filename().string() << " -> " << fs::path(out).filename().string() << "; ";
        switch (s.draw(2)) { case 0: lines.push_back("read " + in + " " + var); lines.push_back("write " + var + " " + out); break; case 1: lines.push_back("read " + in + " | write " + out); lines.push_back("read " + in + " | " + var); break; default: lines.push_back("read " + in + " " + var); lines.push_back("copy " + var + " $c"); lines.push_back("write $c " + out); lines.push_back("remove $c"); }
        ws["v" + num] = v; outs.push_back({text_out ? out : g.d + "/o" + num + bo + ext(v), v});
    }
    lines.push_back("save_workspace " + g.d + "/final"); s.nontrivial(special >= 2); session(lines); for (auto& [k, v] : ws) check_file(g.d + "/final/" + k, v, 1e-9, "variable " + k);
    for (auto& [f, v] : outs) { std::string nm = fs::path(f).filename().string(); REQ(fs::exists(f), "no file " << nm); if (f.size() > ext(v).size() && f.substr(f.size() - ext(v).size()) == ext(v)) check_file(f.substr(0, f.size() - ext(v).size()), v, 1e-9, "file " + nm); else if (auto p = std::get_if<D>(&v)) cmp(TinyDIP::double_image::read_from_csv(f.c_str()), *p, 1e-4, "file " + nm); else cmp(TinyDIP::pnm::read(fs::path(f)), std::get<C>(v), 0, "file " + nm); }
}
PROP(rand_command, "more than one pixel")
{
    DirGuard g; static const char* G[] = {"knuth_b", "minstd_rand", "minstd_rand0", "mt19937", "mt19937_64", "ranlux24", "ranlux24_base", "ranlux48", "ranlux48_base"}; std::string e = G[s.draw(8)]; std::size_t w = s.uz(1, 9), h = s.uz(1, 9); s.desc << e << " " << w << "x" << h; s.nontrivial(w * h > 1); session({"rand " + e + " $r " + std::to_string(w) + " " + std::to_string(h), "rand " + e + " | $nothing", "save_workspace " + g.d}); auto im = TinyDIP::double_image::read((g.d + "/r.dbmp").c_str(), true); REQ(im.getSize() == (Sz{w, h}), "size " << str(im.getSize())); for (auto x : data(im)) REQ(x >= 0 && x < 1, "random value " << x); if (w * h > 3) REQ(std::adjacent_find(data(im).begin(), data(im).end(), std::not_equal_to<>()) != data(im).end(), "all random values are equal");
}
