// C09: padding an image
#include "img.h"
using namespace g;
using namespace TinyDIP;
template<class T> static T padded(const Image<T>& a, int kind, long x, long y, const T& cv)     // 0 constant, 1 mirror, 2 replicate
{
    long w = static_cast<long>(a.getWidth()), h = static_cast<long>(a.getHeight());
    if (x >= 0 && y >= 0 && x < w && y < h) return px(a, static_cast<std::size_t>(x), static_cast<std::size_t>(y));
    if (kind == 0) return cv;
    auto m = [&](long v, long n) { if (kind == 1) { if (v < 0) v = -v; else if (v >= n) v = 2 * (n - 1) - v; return v; } return std::clamp(v, 0L, n - 1); };
    return px(a, static_cast<std::size_t>(m(x, w)), static_cast<std::size_t>(m(y, h)));
}
template<class T, class G> static void pads(Src& s, G gg)
{
    Sz z = wide2(s, 10, 10); auto a = gen(s, z, gg); T cv = gg(s);
    std::size_t ex = s.chance(1, 3) ? z[0] - 1 + s.draw(2) : s.tail(0, 12, 80), ey = s.chance(1, 3) ? z[1] - 1 + s.draw(2) : s.tail(0, 12, 80);
    if (s.chance(1, 3)) { ex %= z[0]; ey %= z[1]; }
    s.desc << show(a, 6) << " by " << ex << "," << ey; s.nontrivial(ex + ey > 0);
    bool mirror_ok = ex < z[0] && ey < z[1];
    for (int kind = 0; kind < 3; ++kind) {
        if (kind == 1 && !mirror_ok) {
            REQ(throws<std::runtime_error>([&] { (void)generate_mirror_padding_image(a, ex, ey, cv); }), "mirroring " << str(z) << " by " << ex << "," << ey << " needs pixels that do not exist");
            REQ(throws<std::runtime_error>([&] { (void)generate_padded_image(std::execution::seq, a, ex, ey, BoundaryCondition::mirror, cv); }), "mirroring by too much (generic form)");
            continue;
        }
        Sz n{z[0] + 2 * ex, z[1] + 2 * ey}; std::vector<T> v;
        for (std::size_t y = 0; y < n[1]; ++y) for (std::size_t x = 0; x < n[0]; ++x) v.push_back(padded(a, kind, static_cast<long>(x) - static_cast<long>(ex), static_cast<long>(y) - static_cast<long>(ey), cv));
        Image<T> w(v, n); const char* nm[] = {"constant", "mirror", "replicate"};
        BoundaryCondition bc = kind == 0 ? BoundaryCondition::constant : kind == 1 ? BoundaryCondition::mirror : BoundaryCondition::replicate;
        req_eq(generate_padded_image(std::execution::seq, a, ex, ey, bc, cv), w, std::string(nm[kind]) + " padding (generic form)");
        req_eq(generate_padded_image(std::execution::par, a, ex, ey, bc, cv), w, std::string(nm[kind]) + " padding (generic form, par)");
        auto one = [&](auto&&... pre) { return kind == 0 ? generate_constant_padding_image(pre..., a, ex, ey, cv) : kind == 1 ? generate_mirror_padding_image(pre..., a, ex, ey, cv) : generate_replicate_padding_image(pre..., a, ex, ey, cv); };
        req_eq(one(), w, std::string(nm[kind]) + " padding"); req_eq(one(std::execution::par), w, std::string(nm[kind]) + " padding (par)");
    }
    if (mirror_ok) { // mirror is the default boundary
        auto d = generate_padded_image(std::execution::seq, a, ex, ey); req_eq(d, generate_mirror_padding_image(a, ex, ey), "default boundary");
    }
}
PROP(byte_images, "some expansion") { pads<std::uint8_t>(s, gb); }
PROP(double_images, "some expansion") { pads<double>(s, gd); }
PROP(rgb_images, "some expansion") { pads<RGB>(s, grgb); }
PROP(hsv_images, "some expansion") { pads<HSV>(s, [](Src& t) { HSV h; for (auto& c : h.channels) c = gd(t); return h; }); }
PROP(wrong_dimension, "the image is not two-dimensional")
{
    Sz z = dims(s, 1, 4, 1, 3); if (z.size() == 2) z.push_back(1); auto a = iimg(s, z); s.desc << str(z); s.nontrivial();
    REQ(throws<std::runtime_error>([&] { (void)generate_constant_padding_image(a, 1, 1); }) && throws<std::runtime_error>([&] { (void)generate_mirror_padding_image(a, 1, 1); }) && throws<std::runtime_error>([&] { (void)generate_replicate_padding_image(a, 1, 1); }), "padding of " << str(z));
}
