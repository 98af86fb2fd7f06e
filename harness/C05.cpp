// C05: PNM (P1/P2/P3) text images
#include "img.h"
#include <iomanip>
#include "image_io.h"
using namespace g;
using namespace TinyDIP;
static std::string file() { return pbt::scratch() + "/p.pnm"; }
static void spit(const std::string& t) { std::ofstream o(file(), std::ios::binary | std::ios::trunc); o << t; }
static std::string slurp() { std::ifstream i(file(), std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
static Image<RGB> rd(Src& s, int bits) { return s.flip() ? pnm::read(std::execution::par, file(), bits) : pnm::read(file(), bits); }
static int ilog2(int v) { int b = 0; while ((1 << (b + 1)) <= v) ++b; return b; }

PROP(write_then_read, "more than one row and column")
{
    Sz z = wide2(s, 16, 12, true);
    auto a = rgbimg(s, z); s.desc << show(a, 4); s.nontrivial(z[0] > 1 && z[1] > 1);
    pnm::write(a, file()); req_eq(rd(s, 8), a, "P3 round trip");
    pnm::write(a, file(), "P2");
    Image<RGB> g2(z), g1(z);
    for (std::size_t i = 0; i < prod(z); ++i) { auto v = a.get(i).channels[0]; g2.getImageData()[i] = RGB{{v, v, v}}; std::uint8_t b = v ? 1 : 0; g1.getImageData()[i] = RGB{{b, b, b}}; }
    req_eq(rd(s, 8), g2, "P2 round trip of the first channel"); pnm::write(a, file(), "P1"); req_eq(rd(s, 8), g1, "P1 round trip of zero / non-zero");
    int bits = static_cast<int>(s.in(1, 8)); int mx = (1 << bits) - 1;
    auto b = gen(s, z, [mx](Src& t) { RGB p; for (auto& c : p.channels) c = static_cast<std::uint8_t>(t.draw(static_cast<unsigned>(mx))); return p; });
    pnm::write(b, file(), "P3", mx); req_eq(rd(s, bits), b, "P3 round trip at another depth");
}
PROP(text_read, "comments, odd whitespace, or a depth other than 8 bits")
{
    Sz z = wide2(s, 9, 9, true); int kind = static_cast<int>(s.in(1, 3));
    int mx = kind == 1 ? 1 : s.pick({255, 1, 3, 7, 15, 100, 127, 200, 511, 1023, 65535}); int bits = s.pick({8, 8, 4, 6, 1});
    int shift = bits - ilog2(mx + 1); bool odd = mx != 255 || bits != 8;
    auto sep = [&](bool hdr) -> std::string { (void)hdr;
        switch (s.draw(9)) { case 0: odd = true; return "\n# a comment 3 4 5\n"; case 1: odd = true; return " \t\r\n "; case 2: return "\n"; case 3: odd = true; return "\n#\n"; case 4: odd = true; return "\n#x\n# 77\n"; default: return " "; } };
    const bool run = kind == 1 && s.flip();      // the bits of a plain bitmap may follow each other directly
    std::string t = "P" + std::to_string(kind) + sep(true) + std::to_string(z[0]) + sep(true) + std::to_string(z[1]); if (kind > 1) t += sep(true) + std::to_string(mx);
    Image<RGB> want(z);
    for (std::size_t r = 0; r < z[1]; ++r) for (std::size_t x = 0; x < z[0]; ++x) {
        RGB p; int v[3];
        for (int c = 0; c < (kind == 3 ? 3 : 1); ++c) { v[c] = static_cast<int>(s.draw(static_cast<unsigned>(mx))); t += (run && (r || x) && s.draw(3) ? (odd = true, std::string()) : sep(false)) + std::to_string(v[c]); }
        for (int c = 0; c < 3; ++c) { int q = v[kind == 3 ? c : 0]; p.channels[c] = kind == 1 ? (q == 0 ? 1 : 0) : static_cast<std::uint8_t>(shift >= 0 ? q << shift : q >> -shift); }
        want.getImageData()[(z[1] - 1 - r) * z[0] + x] = p;       // the file's first line is the top row, stored last
    }
    t += "\n"; spit(t); s.desc << t.substr(0, 200) << " outbits " << bits; s.nontrivial(odd);
    req_eq(pnm::read(file(), bits), want, "text image"); req_eq(pnm::read(std::execution::par, file(), bits), want, "text image (par)");
}
PROP(write_text, "more than one row and column")
{
    Sz z = wide2(s, 9, 9, true); auto a = rgbimg(s, z); int kind = static_cast<int>(s.in(1, 3)); s.desc << "P" << kind << " " << show(a, 4); s.nontrivial(z[0] > 1 && z[1] > 1);
    pnm::write(a, file(), "P" + std::to_string(kind)); std::istringstream i(slurp()); std::string m; std::size_t w, h; int mx = 1; i >> m >> w >> h; if (kind > 1) i >> mx;
    REQ(m == "P" + std::to_string(kind) && w == z[0] && h == z[1] && (kind == 1 || mx == 255), "header " << m << " " << w << " " << h << " " << mx);
    for (std::size_t r = 0; r < h; ++r) for (std::size_t x = 0; x < w; ++x) for (int c = 0; c < (kind == 3 ? 3 : 1); ++c) {
        int v = -1; i >> v; int q = px(a, x, h - 1 - r).channels[c]; if (kind == 1) q = q == 0 ? 1 : 0;
        REQ(v == q, "value at file row " << r << " column " << x << " channel " << c << " is " << v << " expected " << q);
    }
    std::string rest; i >> rest; REQ(rest.empty(), "nothing after the last pixel");
}
PROP(truncated, "values are missing")
{
    Sz z = wide2(s, 6, 6, true); auto a = rgbimg(s, z); pnm::write(a, file(), s.pick({std::string("P3"), std::string("P2"), std::string("P1")}));
    std::string t = slurp(); std::size_t cut = s.uz(0, t.size()); std::string c = t.substr(0, cut); spit(c);
    // complete as long as the last number has at least one digit
    auto words = [](const std::string& q) { std::istringstream i(q); std::size_t n = 0; std::string w; while (i >> w) ++n; return n; };
    bool complete = words(c) == words(t); s.desc << str(z) << " cut at " << cut << " of " << t.size(); s.nontrivial(!complete);
    bool threw = throws_any([&] { auto r = rd(s, 8); REQ(r.getSize() == z, "size"); });
    REQ(threw == !complete, "a file with missing values is " << (threw ? "refused" : "accepted"));
}
PROP(refusals, "always")
{
    s.nontrivial(); auto a = rgbimg(s, Sz{s.sz(1, 4), s.sz(1, 4)}); std::string keep = "keep me " + std::to_string(s.draw(99)); spit(keep);
    std::string bad = s.pick({std::string("P4"), std::string("P5"), std::string("P6"), std::string(""), std::string("p3"), std::string("P33"), std::string("X")}); s.desc << "magic '" << bad << "'";
    REQ(throws<std::invalid_argument>([&] { pnm::write(a, file(), bad); }), "writing with magic '" << bad << "' is refused");
    REQ(slurp() == keep, "a refused write leaves an existing file untouched");
    spit(bad + "\n2 2\n255\n1 2 3 4 5 6 7 8 9 10 11 12\n"); REQ(throws<std::runtime_error>([&] { (void)rd(s, 8); }), "reading magic '" << bad << "' is refused");
    std::remove(file().c_str()); REQ(throws<std::runtime_error>([&] { (void)rd(s, 8); }), "missing file");
    REQ(throws<std::runtime_error>([&] { pnm::write(a, pbt::scratch() + "/no/dir.pnm"); }), "unwritable path");
}
