// Shared generators and naive helpers. Nothing here calls an algorithm under test: images are built
// from flat data and read back through get(flat index), which C01 checks separately.
#pragma once
#include "pbt.h"
#include "base_types.h"
#include "image.h"
#include "image_operations.h"

namespace g {
using TinyDIP::Image;
using pbt::Src;
typedef std::vector<std::size_t> Sz;

inline std::size_t prod(const Sz& z) { std::size_t p = 1; for (auto v : z) p *= v; return p; }
inline std::string str(const Sz& z) { std::string o; for (std::size_t i = 0; i < z.size(); ++i) o += (i ? "x" : "") + std::to_string(z[i]); return o; }
// row-major-with-x-fastest index -> coordinates
inline Sz coord(std::size_t i, const Sz& z) { Sz c(z.size()); for (std::size_t k = 0; k < z.size(); ++k) { c[k] = i % z[k]; i /= z[k]; } return c; }
inline std::size_t flat(const Sz& c, const Sz& z) { std::size_t i = 0, st = 1; for (std::size_t k = 0; k < z.size(); ++k) { i += c[k] * st; st *= z[k]; } return i; }

// now and then one side is longer than a byte counts; with huge also longer than two bytes count
inline Sz dims(Src& s, std::size_t dmin, std::size_t dmax, std::size_t lo, std::size_t hi, bool huge = false)
{
    std::size_t d = s.uz(dmin, dmax); Sz z;
    for (std::size_t i = 0; i < d; ++i) z.push_back(s.sz(lo, hi));
    if (d && hi >= 3 && s.draw(79) == 79)
    {
        std::size_t k = s.draw(d - 1); for (auto& v : z) v = std::min<std::size_t>(v, 2);
        z[k] = 250 + s.draw(900); if (huge && s.draw(7) == 7) { for (auto& v : z) v = 1; z[k] = 65500 + s.draw(200); }
    }
    return z;
}

// a two-dimensional size; now and then one side is longer than a byte counts, or both are of middling size
inline Sz wide2(Src& s, std::size_t w, std::size_t h, bool huge = false)
{
    Sz z{s.sz(1, w), s.sz(1, h)}; std::size_t q = s.draw(79);
    if (q == 78) z = {13 + s.draw(27), 13 + s.draw(27)};
    if (q == 79) { std::size_t k = s.draw(1); z[k] = 250 + s.draw(60); z[1 - k] = std::min<std::size_t>(z[1 - k], 3);
        if (huge) switch (s.draw(7)) { case 5: z[k] = 4090 + s.draw(20); z[1 - k] = 1; break; case 6: z = {150 + s.draw(40), 145 + s.draw(40)}; break; case 7: z[k] = 65530 + s.draw(40); z[1 - k] = 1; break; default: break; } }
    return z;
}

template<class T> Image<T> make(const std::vector<T>& v, const Sz& z) { return Image<T>(v, z); }

// scalar generators
inline double gd(Src& s) { return s.dyadic(64, 16); }
inline std::uint8_t gb(Src& s)
{
    switch (s.draw(3)) { case 0: return static_cast<std::uint8_t>(s.draw(3)); case 1: return static_cast<std::uint8_t>(255 - s.draw(2)); default: return static_cast<std::uint8_t>(s.draw(255)); }
}
inline TinyDIP::RGB grgb(Src& s) { TinyDIP::RGB p; for (auto& c : p.channels) c = gb(s); return p; }

template<class F> auto gen(Src& s, const Sz& z, F f)
{
    using T = std::remove_cvref_t<decltype(f(s))>;
    std::vector<T> v(prod(z));
    if (v.size() > 4096) { Src t; t.state = s.draw(~0ULL); t.size = s.size; for (auto& e : v) { e = f(t); t.choices.clear(); } }
    else for (auto& e : v) e = f(s);
    return Image<T>(v, z);
}
inline Image<double> dimg(Src& s, const Sz& z) { return gen(s, z, gd); }
inline Image<std::uint8_t> bimg(Src& s, const Sz& z) { return gen(s, z, gb); }
inline Image<TinyDIP::RGB> rgbimg(Src& s, const Sz& z) { return gen(s, z, grgb); }
inline Image<int> iimg(Src& s, const Sz& z, long mag = 100) { return gen(s, z, [mag](Src& t) { return static_cast<int>(t.sint(mag)); }); }

template<class T> const std::vector<T>& data(const Image<T>& i) { return i.getImageData(); }
template<class T> T px(const Image<T>& i, std::size_t x, std::size_t y) { return i.getImageData()[y * i.getSize()[0] + x]; }

template<class T> bool same(const T& a, const T& b)
{
    if constexpr (requires { a.channels; }) { for (std::size_t i = 0; i < std::size(a.channels); ++i) if (!(a.channels[i] == b.channels[i])) return false; return true; }
    else return a == b;
}
template<class T> std::string ps(const T& a)
{
    std::ostringstream o; o.precision(17);
    if constexpr (requires { a.channels; }) { o << "("; for (std::size_t i = 0; i < std::size(a.channels); ++i) o << (i ? "," : "") << +a.channels[i]; o << ")"; }
    else if constexpr (std::is_arithmetic_v<T>) o << +a;
    else o << a;
    return o.str();
}
template<class T> std::string show(const Image<T>& im, std::size_t maxn = 24)
{
    std::string o = str(im.getSize()) + "[";
    auto& d = im.getImageData();
    for (std::size_t i = 0; i < d.size() && i < maxn; ++i) o += (i ? " " : "") + ps(static_cast<T>(d[i]));
    if (d.size() > maxn) o += " ...";
    return o + "]";
}
// exact equality of size and every pixel
template<class T> void req_eq(const Image<T>& got, const Image<T>& want, const std::string& what)
{
    REQ(got.getSize() == want.getSize(), what << ": size " << str(got.getSize()) << " expected " << str(want.getSize()));
    REQ(got.getImageData().size() == want.getImageData().size(), what << ": data length");
    for (std::size_t i = 0; i < want.getImageData().size(); ++i)
        REQ(same(static_cast<T>(got.getImageData()[i]), static_cast<T>(want.getImageData()[i])), what << ": element " << i << " at " << str(coord(i, want.getSize())) << " is " << ps(static_cast<T>(got.getImageData()[i])) << " expected " << ps(static_cast<T>(want.getImageData()[i])));
}
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-9)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
template<class T> bool closeT(const T& a, const T& b, double rel, double abs_)
{
    if constexpr (requires { a.channels; }) { for (std::size_t i = 0; i < std::size(a.channels); ++i) if (!close(static_cast<double>(a.channels[i]), static_cast<double>(b.channels[i]), rel, abs_)) return false; return true; }
    else if constexpr (requires { a.real(); a.imag(); }) return close(a.real(), b.real(), rel, abs_) && close(a.imag(), b.imag(), rel, abs_);
    else return close(static_cast<double>(a), static_cast<double>(b), rel, abs_);
}
template<class T> void req_close(const Image<T>& got, const Image<T>& want, double rel, double abs_, const std::string& what)
{
    REQ(got.getSize() == want.getSize(), what << ": size " << str(got.getSize()) << " expected " << str(want.getSize()));
    REQ(got.getImageData().size() == want.getImageData().size(), what << ": data length");
    for (std::size_t i = 0; i < want.getImageData().size(); ++i)
        REQ(closeT(got.getImageData()[i], want.getImageData()[i], rel, abs_), what << ": element " << i << " at " << str(coord(i, want.getSize())) << " is " << ps(got.getImageData()[i]) << " expected " << ps(want.getImageData()[i]));
}
template<class E, class F> bool throws(F&& f) { try { f(); } catch (const E&) { return true; } return false; }
template<class F> bool throws_any(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
} // namespace g
