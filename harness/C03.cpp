// C03: BMP files
#include "img.h"
#include "image_io.h"
using namespace g;
using namespace TinyDIP;
typedef std::vector<unsigned char> Bytes;

static Bytes slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
static void spit(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(reinterpret_cast<const char*>(b.data()), static_cast<long>(b.size())); }
static unsigned le(const Bytes& b, std::size_t o, int n) { unsigned v = 0; for (int i = 0; i < n; ++i) v |= static_cast<unsigned>(b.at(o + i)) << (8 * i); return v; }
static void put(Bytes& b, std::size_t o, unsigned v, int n) { for (int i = 0; i < n; ++i) b.at(o + i) = static_cast<unsigned char>(v >> (8 * i)); }

PROP(write_then_read, "width not a multiple of 4, or more than one row")
{
    Sz z = wide2(s, 40, 24, true);
    auto a = rgbimg(s, z);
    s.desc << str(z); s.nontrivial(z[0] % 4 != 0 || z[1] > 1);
    std::string base = pbt::scratch() + "/w";
    std::remove((base + ".bmp").c_str());
    int rc = s.flip() ? bmp_write(base.c_str(), a) : bmp_write(base, a);
    REQ(rc == 0, "writing succeeds");
    req_eq(bmp_read((base + ".bmp").c_str(), true), a, "read back with extension");
    req_eq(bmp_read(base.c_str(), false), a, "read back without extension");
    Bytes b = slurp(base + ".bmp");
    std::size_t row = (3 * z[0] + 3) / 4 * 4;
    REQ(b.size() == 54 + row * z[1], "file length " << b.size());
    REQ(b[0] == 'B' && b[1] == 'M', "signature");
    REQ(le(b, 2, 4) == b.size(), "the header's file size " << le(b, 2, 4) << " is the file's size " << b.size());
    REQ(le(b, 10, 4) == 54 && le(b, 14, 4) == 40 && le(b, 26, 2) == 1 && le(b, 28, 2) == 24 && le(b, 30, 4) == 0, "header fields");
    REQ(le(b, 18, 4) == z[0] && le(b, 22, 4) == z[1], "header sizes");
    for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < row; ++x) {
        unsigned char w = x < 3 * z[0] ? px(a, x / 3, y).channels[2 - x % 3] : 0;
        REQ(b[54 + y * row + x] == w, "byte " << x << " of stored row " << y << " is " << +b[54 + y * row + x] << " expected " << +w);
    }
    REQ(bmp_read_x_size((base + ".bmp").c_str(), true) == z[0] && bmp_read_y_size(base.c_str(), false) == z[1], "size queries");
    // writing the image that was read gives the same bytes
    std::string base2 = pbt::scratch() + "/w2";
    bmp_write(base2, bmp_read(base.c_str(), false));
    REQ(slurp(base2 + ".bmp") == b, "a second write is byte-identical");
    unsigned char* raw = array_to_raw_image(a);
    REQ(Bytes(raw, raw + row * z[1]) == Bytes(b.begin() + 54, b.end()), "raw buffer is the file's pixel area");
    auto back = raw_image_to_array(static_cast<int>(z[0]), static_cast<int>(z[1]), raw); std::free(raw);
    req_eq(back, a, "raw buffer to image");
    REQ(bmp_write((pbt::scratch() + "/no/such/dir/f").c_str(), a) == -1, "an unwritable path is reported");
}

// independent encoder: 24-bit or palettised 8-bit, any pixel offset, either row order
static Bytes encode(Src& s, const Image<RGB>& want, const std::vector<RGB>& palette, const std::vector<unsigned char>& idx, int bits, bool topdown, unsigned gap)
{
    std::size_t w = want.getSize()[0], h = want.getSize()[1];
    unsigned off = 54 + static_cast<unsigned>(palette.size()) * 4 + gap;
    std::size_t row = bits == 24 ? (3 * w + 3) / 4 * 4 : (w + 3) / 4 * 4;
    Bytes b(off + row * h, 0);
    b[0] = 'B'; b[1] = 'M'; put(b, 2, static_cast<unsigned>(b.size()), 4); put(b, 10, off, 4); put(b, 14, 40, 4);
    put(b, 18, static_cast<unsigned>(w), 4); put(b, 22, topdown ? static_cast<unsigned>(-static_cast<int>(h)) : static_cast<unsigned>(h), 4);
    put(b, 26, 1, 2); put(b, 28, static_cast<unsigned>(bits), 2);
    for (std::size_t i = 0; i < palette.size(); ++i) for (int c = 0; c < 3; ++c) b[54 + 4 * i + c] = palette[i].channels[2 - c];
    for (unsigned i = 0; i < gap; ++i) b[54 + palette.size() * 4 + i] = static_cast<unsigned char>(s.draw(255));
    unsigned char fill = static_cast<unsigned char>(s.draw(255));
    for (std::size_t y = 0; y < h; ++y) {
        std::size_t fr = topdown ? h - 1 - y : y;                // file row; image row 0 is the bottom one
        for (std::size_t x = 0; x < row; ++x) {
            unsigned char v = fill;
            if (bits == 24) { if (x < 3 * w) v = px(want, x / 3, y).channels[2 - x % 3]; }
            else if (x < w) v = idx[y * w + x];
            b[off + fr * row + x] = v;
        }
    }
    return b;
}
// open handles of this process on files of the scratch directory
static std::size_t handles() { std::size_t n = 0; std::error_code e; for (auto& d : std::filesystem::directory_iterator("/proc/self/fd", e)) { auto l = std::filesystem::read_symlink(d.path(), e); n += !e && l.string().rfind(std::filesystem::canonical(pbt::scratch()).string() + "/", 0) == 0; } return n; }
PROP(read_foreign, "palettised, top-down, or with a gap before the pixels")
{
    Sz z = wide2(s, 20, 10, true);
    bool pal = s.flip(), top = s.chance(1, 3); unsigned gap = pal ? 0 : static_cast<unsigned>(s.chance(1, 2) ? s.draw(80) : 0);
    std::vector<RGB> palette; std::vector<unsigned char> idx;
    Image<RGB> want(z);
    if (pal) {
        std::size_t n = s.chance(1, 2) ? 256 : s.uz(1, 255);
        for (std::size_t i = 0; i < n; ++i) palette.push_back(grgb(s));
        for (std::size_t i = 0; i < prod(z); ++i) { idx.push_back(static_cast<unsigned char>(s.draw(n - 1))); want.getImageData()[i] = palette[idx[i]]; }
    } else want = rgbimg(s, z);
    s.desc << str(z) << (pal ? " 8-bit" : " 24-bit") << (top ? " top-down" : " bottom-up") << " palette " << palette.size() << " gap " << gap;
    s.nontrivial(pal || top || gap);
    std::string p = pbt::scratch() + "/f.bmp";
    spit(p, encode(s, want, palette, idx, pal ? 8 : 24, top, gap));
    req_eq(bmp_read(p.c_str(), true), want, "reading a BMP made by another encoder");
}

PROP(truncated, "the file ends inside the header or the pixel data")
{
    Sz z = wide2(s, 12, 8, true);
    auto a = rgbimg(s, z);
    std::string p = pbt::scratch() + "/t.bmp";
    Bytes full = encode(s, a, {}, {}, 24, false, 0);
    std::size_t cut = s.chance(1, 3) ? s.uz(0, 54) : s.uz(0, full.size());
    Bytes b(full.begin(), full.begin() + static_cast<long>(cut));
    spit(p, b);
    s.desc << str(z) << " cut at byte " << cut << " of " << full.size(); s.nontrivial(cut < full.size());
    std::size_t before = handles(); unsigned long qx = bmp_read_x_size(p.c_str(), true), qy = bmp_read_y_size(p.c_str(), true);
    if (cut >= 54) REQ(qx == z[0] && qy == z[1], "size queries of a truncated file: " << qx << "x" << qy); else REQ(qx == static_cast<unsigned long>(-1) && qy == qx, "size queries of a file without a complete header give " << qx << " and " << qy << ", not -1");
    REQ(handles() == before, "the size queries leave " << handles() - before << " file handles open");
    Image<RGB> got;
    try { got = bmp_read(p.c_str(), true); } catch (const std::exception&) { REQ(cut < full.size(), "a complete file is accepted"); REQ(handles() == before, "a refused read leaves a file handle open"); return; }
    REQ(handles() == before, "reading leaves a file handle open");
    if (cut < 54) { REQ(got.getImageData().empty(), "a file without a complete header yields no pixels, got " << str(got.getSize())); return; }
    REQ(got.getSize() == z, "size from the header");
    std::size_t row = (3 * z[0] + 3) / 4 * 4;
    for (std::size_t y = 0; y < z[1]; ++y) for (std::size_t x = 0; x < z[0]; ++x)
        if (54 + y * row + 3 * x + 3 <= cut) REQ(px(got, x, y) == px(a, x, y), "pixel " << x << "," << y << " stored before the cut is intact");
}

PROP(missing_file, "always")
{
    s.nontrivial(); std::string p = pbt::scratch() + "/absent" + std::to_string(s.draw(1000));
    std::size_t before = handles(); REQ(bmp_read_x_size(p.c_str(), s.flip()) == static_cast<unsigned long>(-1) && bmp_read_y_size(p.c_str(), s.flip()) == static_cast<unsigned long>(-1), "size queries of a missing file"); REQ(handles() == before, "file handles left open by the size queries");
    REQ(throws<std::runtime_error>([&] { (void)bmp_read(p.c_str(), s.flip()); }), "a missing file is reported by exception");
}

PROP(history, "three or more operations")
{
    // several files written, overwritten and read in any order: each read returns the last image written there
    std::vector<Image<RGB>> model(3); std::vector<bool> have(3, false);
    for (int k = 0; k < 3; ++k) std::remove((pbt::scratch() + "/h" + std::to_string(k) + ".bmp").c_str());
    std::size_t n = s.sz(1, 12); s.nontrivial(n >= 3);
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t k = s.draw(2); std::string base = pbt::scratch() + "/h" + std::to_string(k);
        if (s.flip()) { model[k] = rgbimg(s, Sz{s.sz(1, 9), s.sz(1, 9)}); have[k] = true; REQ(bmp_write(base, model[k]) == 0, "write"); s.desc << " w" << k << ":" << str(model[k].getSize()); }
        else if (have[k]) { req_eq(bmp_read(base.c_str(), false), model[k], "read after overwrite"); s.desc << " r" << k; }
        else REQ(throws_any([&] { (void)bmp_read(base.c_str(), false); }), "read of a file never written");
    }
}
