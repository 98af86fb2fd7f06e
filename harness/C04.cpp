// C04: floating-point image files (.dbmp, .hsv) and CSV
#include "img.h"
#include <iomanip>
#include "image_io.h"
using namespace g;
using namespace TinyDIP;

static double anyd(Src& s)
{
    switch (s.draw(4)) {
    case 0: return s.dyadic(64, 16);
    case 1: return s.real(-1e6, 1e6);
    case 2: return s.real(-1, 1) * std::pow(10.0, static_cast<double>(s.sint(200)));
    case 3: return s.pick({0.0, -0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max()});
    default: return 1.0 / 3.0 * static_cast<double>(s.sint(999));
    }
}
static bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }

PROP(dbmp_roundtrip, "width not a multiple of 8, or more than one row")
{
    Sz z = wide2(s, 20, 12, true);
    auto a = gen(s, z, anyd);
    s.desc << show(a, 6); s.nontrivial(z[0] % 8 != 0 || z[1] > 1);
    std::string base = pbt::scratch() + "/d";
    REQ(double_image::write(base.c_str(), a) == 0, "write");
    auto b = s.flip() ? double_image::read((base + ".dbmp").c_str(), true) : double_image::read(base.c_str(), false);
    REQ(b.getSize() == z, "size " << str(b.getSize()));
    for (std::size_t i = 0; i < prod(z); ++i) REQ(same_bits(a.get(i), b.get(i)), "value " << i << " " << a.get(i) << " came back as " << b.get(i));
    REQ(double_image::write((pbt::scratch() + "/no/dir/x").c_str(), a) == -1, "unwritable path");
}
PROP(hsv_roundtrip, "width not a multiple of 8, or more than one row")
{
    Sz z = wide2(s, 20, 12, true);
    auto a = gen(s, z, [](Src& t) { HSV h; for (auto& c : h.channels) c = anyd(t); return h; });
    s.desc << show(a, 3); s.nontrivial(z[0] % 8 != 0 || z[1] > 1);
    std::string base = pbt::scratch() + "/h";
    REQ(hsv_write(base.c_str(), a) == 0, "write");
    auto b = s.flip() ? hsv_read((base + ".hsv").c_str(), true) : hsv_read(base.c_str(), false);
    REQ(b.getSize() == z, "size " << str(b.getSize()));
    for (std::size_t i = 0; i < prod(z); ++i) for (int c = 0; c < 3; ++c) REQ(same_bits(a.get(i).channels[c], b.get(i).channels[c]), "pixel " << i << " channel " << c << ": " << a.get(i).channels[c] << " came back as " << b.get(i).channels[c]);
    REQ(hsv_write((pbt::scratch() + "/no/dir/x").c_str(), a) == -1, "unwritable path");
}
PROP(truncated_or_missing, "the file is missing or ends inside its header")
{
    std::string p = pbt::scratch() + "/t.dbmp", q = pbt::scratch() + "/t.hsv"; std::remove(p.c_str()); std::remove(q.c_str());
    std::size_t cut = s.uz(0, 53); bool exists = s.flip();
    if (exists) for (auto& f : {p, q}) { std::ofstream o(f, std::ios::binary); for (std::size_t i = 0; i < cut; ++i) o.put(static_cast<char>(s.draw(255))); }
    s.desc << (exists ? "header cut at " : "missing ") << cut; s.nontrivial();
    try { REQ(double_image::read(p.c_str(), true).getImageData().empty(), "no pixels from an unusable file"); } catch (const std::exception&) {}
    try { REQ(hsv_read(q.c_str(), true).getImageData().empty(), "no pixels from an unusable file"); } catch (const std::exception&) {}
}
static double csvd(Src& s) { switch (s.draw(2)) { case 0: return s.dyadic(64, 4); case 1: return s.real(-1e4, 1e4); default: return s.real(-1, 1) * std::pow(10.0, static_cast<double>(s.sint(30))); } }
PROP(csv_roundtrip, "more than one row and column")
{
    Sz z = wide2(s, 12, 12, true);
    auto a = gen(s, z, csvd);
    s.desc << show(a, 6); s.nontrivial(z[0] > 1 && z[1] > 1);
    std::string p = pbt::scratch() + "/c.csv", p2 = pbt::scratch() + "/c2.csv";
    int prec = s.flip() ? -1 : static_cast<int>(s.draw(9));
    double_image::write_to_csv(p.c_str(), a, prec); double_image::write_to_csv(std::execution::par, p2.c_str(), a, prec);
    auto slurp = [](const std::string& f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {}); };
    REQ(slurp(p) == slurp(p2), "both writers produce the same text");
    std::istringstream is(slurp(p)); std::string line; std::size_t rows = 0;
    while (std::getline(is, line)) { ++rows; REQ(static_cast<std::size_t>(std::count(line.begin(), line.end(), ',')) == z[0] - 1, "cells per line in: " << line); }
    REQ(rows == z[1], "one line per row");
    auto b = double_image::read_from_csv<double>(p.c_str()); auto c = double_image::read_from_csv(std::execution::par, p.c_str());
    REQ(b.getSize() == z && c.getSize() == z, "size read back " << str(b.getSize()) << " expected " << str(z));
    for (std::size_t i = 0; i < prod(z); ++i) {
        REQ(b.get(i) == c.get(i), "both readers agree at " << i);
        double tol = prec < 0 ? std::fabs(a.get(i)) * 5.1e-6 : 0.51 * std::pow(10.0, -prec) + std::fabs(a.get(i)) * 1e-12;
        REQ(std::fabs(a.get(i) - b.get(i)) <= tol, "value " << i << " " << a.get(i) << " came back as " << b.get(i) << " with precision " << prec);
    }
    auto ii = iimg(s, z, 99999); double_image::write_to_csv(p.c_str(), ii);
    req_eq(double_image::read_from_csv<int>(p.c_str()), ii, "integer CSV");
    req_eq(double_image::read_from_csv<std::execution::parallel_policy const&, int>(std::execution::par, p.c_str()), ii, "integer CSV (par)");
    if (prec < 0) {   // dyadic values with few digits survive exactly
        auto d = gen(s, z, [](Src& t) { return static_cast<double>(t.sint(999)) / 4; });
        double_image::write_to_csv(p.c_str(), d); req_eq(double_image::read_from_csv<double>(p.c_str()), d, "short values are exact");
    }
}
PROP(csv_text, "blank lines, spaces or short rows")
{
    // a reader of hand-written CSV: cell (x, y) is the x-th field of the y-th non-empty line
    std::size_t w = s.sz(1, 6), h = s.sz(1, 6);
    std::vector<double> want(w * h, 0); std::string t; bool odd = false;
    for (std::size_t y = 0; y < h; ++y) {
        std::size_t n = y == 0 ? w : (s.chance(1, 5) ? s.uz(1, w + 2) : w); odd = odd || n != w;
        for (std::size_t x = 0; x < n; ++x) {
            int v = static_cast<int>(s.sint(500)); bool sp = s.chance(1, 6); odd = odd || sp;
            t += (x ? "," : "") + std::string(sp ? " " : "") + std::to_string(v) + (s.chance(1, 6) ? ".5" : "");
            double dv = std::stod(t.substr(t.find_last_of(",\n") == std::string::npos ? 0 : t.find_last_of(",\n") + 1));
            if (x < w) want[y * w + x] = dv;
        }
        t += "\n"; while (s.chance(1, 6)) { t += "\n"; odd = true; }
    }
    if (s.chance(1, 4)) { while (!t.empty() && t.back() == '\n') t.pop_back(); }
    s.desc << t; s.nontrivial(odd);
    std::string p = pbt::scratch() + "/x.csv"; { std::ofstream o(p, std::ios::binary); o << t; }
    Image<double> m(want, Sz{w, h});
    req_eq(double_image::read_from_csv<double>(p.c_str()), m, "CSV text"); req_eq(double_image::read_from_csv(std::execution::seq, p.c_str()), m, "CSV text (seq)");
}
PROP(csv_refusals, "always")
{
    s.nontrivial(); Sz z = dims(s, 1, 4, 1, 4); if (z.size() == 2) z.push_back(2);
    auto a = dimg(s, z); std::string p = pbt::scratch() + "/r.csv"; { std::ofstream o(p); o << "keep"; }
    REQ(throws<std::runtime_error>([&] { double_image::write_to_csv(p.c_str(), a); }), "a " << z.size() << "-D image is refused");
    REQ(throws<std::runtime_error>([&] { double_image::write_to_csv(std::execution::par, p.c_str(), a); }), "a " << z.size() << "-D image is refused (par)");
    std::ifstream i(p); std::string k; i >> k; REQ(k == "keep", "a refused write leaves an existing file untouched");
    std::string q = pbt::scratch() + "/none.csv";
    REQ(throws<std::runtime_error>([&] { (void)double_image::read_from_csv<double>(q.c_str()); }), "missing file"); REQ(throws<std::runtime_error>([&] { (void)double_image::read_from_csv(std::execution::seq, q.c_str()); }), "missing file (seq)");
    auto ok = dimg(s, Sz{2, 2}); REQ(throws<std::runtime_error>([&] { double_image::write_to_csv((pbt::scratch() + "/no/dir.csv").c_str(), ok); }), "unwritable path");
}
