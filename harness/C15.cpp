// C15: results do not depend on the number of threads, the execution policy or the schedule
#include "img.h"
#include <atomic>
#include <functional>
#include <iostream>
#include <omp.h>
#include <thread>
using namespace g;
using namespace TinyDIP;
typedef std::vector<double> VD;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };

// an image of pseudo-random pixels from one drawn seed: large images shrink by their size only
static std::uint64_t mix(std::uint64_t& z) { z += 0x9e3779b97f4a7c15ull; std::uint64_t x = z; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static Image<double> big(std::uint64_t z, std::size_t w, std::size_t h) { Image<double> m(w, h); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) m.at(x, y) = static_cast<double>(mix(z) % 25600) / 100; return m; }
static Image<GrayScale> bigb(std::uint64_t z, std::size_t w, std::size_t h) { Image<GrayScale> m(w, h); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) m.at(x, y) = static_cast<GrayScale>(mix(z)); return m; }
static Image<RGB> bigc(std::uint64_t z, std::size_t w, std::size_t h) { Image<RGB> m(w, h); for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) for (auto& c : m.at(x, y).channels) c = static_cast<std::uint8_t>(mix(z)); return m; }
static void put(VD& o, double v) { o.push_back(v); }
static void put(VD& o, const std::complex<double>& v) { o.push_back(v.real()); o.push_back(v.imag()); }
template<class P> requires requires(const P& p) { p.channels; } static void put(VD& o, const P& p) { for (auto c : p.channels) o.push_back(static_cast<double>(c)); }
template<class T> static void put(VD& o, const Image<T>& m) { for (auto d : m.getSize()) o.push_back(static_cast<double>(d)); for (auto& e : data(m)) put(o, e); }
template<class T> static void put(VD& o, const std::vector<T>& v) { o.push_back(static_cast<double>(v.size())); for (auto& e : v) put(o, e); }
template<class T> static VD vd(const T& v) { VD o; put(o, v); return o; }

struct In { std::size_t w, h; Image<double> a, b; Image<GrayScale> g, k; Image<RGB> c; double p, q; };
typedef std::function<VD(const In&)> Op;
struct Row { const char* name; Op f; };
// f is called with a policy wherever the library takes one
#define POL(name, ...) {name, [](const In& i) { auto&& pol = std::execution::seq; (void)pol; return vd(__VA_ARGS__); }}, {name " (par)", [](const In& i) { auto&& pol = std::execution::par; (void)pol; return vd(__VA_ARGS__); }}, {name " (par_unseq)", [](const In& i) { auto&& pol = std::execution::par_unseq; (void)pol; return vd(__VA_ARGS__); }}
#define ONE(name, ...) {name, [](const In& i) { return vd(__VA_ARGS__); }}, {nullptr, nullptr}, {nullptr, nullptr}
static Image<double> kern(const In& i) { Image<double> k(3, 3); for (std::size_t j = 0; j < 9; ++j) k.set(j) = i.p * static_cast<double>(j) - i.q; return k; }
static const Row table[] = {
    POL("apply_each_pixel", apply_each_pixel(pol, i.a, [&](double v) { return v * i.p - i.q; })),
    ONE("apply_each_pixel_openmp", apply_each_pixel_openmp(i.a, [&](double v) { return v * i.p - i.q; })),
    ONE("apply_threshold_openmp", apply_threshold_openmp(i.g, GrayScale{100})),
    POL("pixelwise_transform", pixelwise_transform(pol, [&](double v) { return v * i.p; }, i.a)),
    POL("rgb2hsv", rgb2hsv(pol, i.c)),
    POL("hsv2rgb", hsv2rgb(pol, rgb2hsv(i.c))),
    POL("abs", abs(pol, subtract(i.a, i.b))),
    POL("negate", negate(pol, i.a)),
    POL("sum", VD{static_cast<double>(sum(pol, i.g))}),
    POL("transpose", transpose(pol, i.a)),
    POL("paste2D", paste2D(pol, i.a, i.b, std::size_t{3}, std::size_t{2}, 0.5)),
    POL("subimage", subimage(pol, i.a, std::size_t{5}, std::size_t{7}, i.w / 2, i.h / 2, 0.25)),
    POL("add_border_2d", add_border_2d(pol, i.c, 3, RGB{{1, 2, 3}})),
    POL("padding", generate_padded_image(pol, i.a, 4, 3, BoundaryCondition::mirror, 0.0)),
    POL("padding of the edge", generate_padded_image(pol, i.a, 4, 3, BoundaryCondition::replicate, 0.0)),
    POL("convolution", convolution(pol, i.a, kern(i), true)),
    POL("imgaussfilt", imgaussfilt(pol, i.a, 1.1, 0.8, 5, 5)),
    POL("windowed_filter", windowed_filter(pol, subimage(i.a, 14, 12, i.w / 2, i.h / 2), std::vector<std::size_t>{3, 3}, [&](auto&& w) { double t = 0; for (std::size_t j = 0; j < 9; ++j) t += static_cast<double>(j) * w.get(j); return t; })),
    ONE("conv2", conv2(i.a, kern(i), true)),
    ONE("constructRGB", constructRGB(i.g, i.k, i.g)),
    ONE("constructRGBDOUBLE", constructRGBDOUBLE(i.a, i.b, i.a)),
    ONE("constructHSV", constructHSV(i.a, i.b, i.a)),
    ONE("constructMultiChannel", constructMultiChannel(i.a, i.b)),
    ONE("three channels", constructMultiChannel(i.a, i.b, i.b)),
    ONE("getPlane", getPlane(i.c, 1)),
    ONE("plane of a multi-channel image", getPlane(constructMultiChannel(i.a, i.b), 1)),
    ONE("channels", apply_each(i.c, [&](auto&& plane) { return apply_each_pixel_openmp(plane, [](GrayScale v) { return static_cast<GrayScale>(255 - v / 2); }); })),
    ONE("im2double", im2double(i.c)),
    ONE("resize_nearest_neighbor", resize_nearest_neighbor(i.a, i.h + 3, i.w + 5)),
    ONE("copyResizeBicubic", copyResizeBicubic(i.a, i.h + 3, i.w + 5)),
    ONE("bicubic of colours", copyResizeBicubic(i.c, i.w / 2 + 1, i.h + 2)),
    ONE("gaussianFigure2D", gaussianFigure2D(i.w, i.h, i.w / 2, i.h / 3, 4.0, 7.0)),
    ONE("subimage2", subimage2(i.a, 1, i.w - 2, 0, i.h - 2)),
    ONE("dct2", dct2(subimage(i.a, 12, 11, i.w / 2, i.h / 2))),
    ONE("idct2", idct2(subimage(i.a, 12, 11, i.w / 2, i.h / 2))),
    POL("dct3 plane", dct3_one_plane(pol, std::vector<Image<double>>{subimage(i.a, 9, 8, i.w / 2, i.h / 2), subimage(i.b, 9, 8, i.w / 2, i.h / 2)}, 1)),
    ONE("dct3", dct3(std::vector<Image<double>>{subimage(i.a, 9, 8, i.w / 2, i.h / 2), subimage(i.b, 9, 8, i.w / 2, i.h / 2)})),
    ONE("gaussian_fisheye", gaussian_fisheye(i.a, i.p * 20)),
    ONE("fisheye of colours", gaussian_fisheye(i.c, i.p * 20)),
    ONE("draw_points", draw_points(i.c, std::vector<Point<2>>{{{3, 4}}, {{i.w - 2, i.h - 3}}}, RGB{{9, 8, 7}}, 6)),
    ONE("flips", flip_horizontal_vertical(i.a)),
    ONE("split", split(i.a, 3, 2)),
    ONE("rotation", rotate_detail_shear_transformation(i.a, i.p)),
    ONE("difference_of_gaussian", difference_of_gaussian(i.a, 0.8, 1.2)),
    ONE("octave", SIFT_impl::generate_octave(i.a, 4, 0.8, 1.2)),
    ONE("warp_perspective", [](const In& i) { linalg::Matrix<double> H(3, 3); H.at(0, 0) = 1 + i.p / 10; H.at(0, 1) = i.q / 10; H.at(1, 0) = -i.p / 10; H.at(1, 1) = 1; H.at(0, 2) = i.q; H.at(2, 2) = 1; return warp_perspective<double, double>{}(i.a, H, i.w + 3, i.h + 2); }(i)),
    POL("warp_perspective with a policy", [](const In& i, auto& pol) { linalg::Matrix<double> H(3, 3); H.at(0, 0) = 1 + i.p / 10; H.at(0, 1) = i.q / 10; H.at(1, 0) = -i.p / 10; H.at(1, 1) = 1; H.at(0, 2) = i.q; H.at(2, 2) = 1; return warp_perspective<double, double>{}(pol, i.a, H, i.w + 3, i.h + 2); }(i, pol)),
};
static const std::size_t ROWS = sizeof(table) / sizeof(table[0]) / 3;

PROPW(same_result, 8, "at least 200 pixels and 3 threads")
{
    std::size_t k = s.draw(ROWS - 1) * 3; In i; i.w = 9 + s.draw(40); i.h = 9 + s.draw(40); std::uint64_t z = s.draw(1000000); i.a = big(z, i.w, i.h); i.b = big(z + 77, i.w, i.h); i.g = bigb(z, i.w, i.h); i.k = bigb(z + 5, i.w, i.h); i.c = bigc(z, i.w, i.h); i.p = 0.2 + s.unit(); i.q = s.unit() * 3; int nt = static_cast<int>(2 + s.draw(6)); bool dyn = s.flip();
    s.desc << table[k].name << " of " << i.w << "x" << i.h << " seed " << z << " with " << nt << " threads"; s.nontrivial(i.w * i.h >= 200 && nt >= 3); In i0 = i; omp_set_num_threads(1); VD ref = table[k].f(i);
    omp_set_dynamic(0); omp_set_schedule(dyn ? omp_sched_dynamic : omp_sched_static, dyn ? 1 : 0);
    for (int rep = 0; rep < 2; ++rep) for (std::size_t v = 0; v < 3; ++v) { if (!table[k + v].f) continue; omp_set_num_threads(nt); VD got = table[k + v].f(i); omp_set_num_threads(2); REQ(got.size() == ref.size(), table[k + v].name << ": " << got.size() << " numbers, sequentially " << ref.size()); for (std::size_t j = 0; j < ref.size(); ++j) REQ(close(got[j], ref[j], 1e-9, 1e-9) || got[j] == ref[j] || (got[j] != got[j] && ref[j] != ref[j]), table[k + v].name << ": number " << j << " is " << got[j] << ", sequentially " << ref[j]); }
    req_eq(i.a, i0.a, "the input changes"); req_eq(i.c, i0.c, "the input changes");
}
static void rest(std::uint64_t v) { switch (v % 7) { case 0: std::this_thread::yield(); break; case 1: for (volatile int k = 0; k < 200; k = k + 1) {} break; case 2: if (v % 64 == 2) std::this_thread::sleep_for(std::chrono::microseconds(50)); break; default: break; } }
PROPW(once, 3, "at least 3 threads")
{   // a function of the caller runs once per pixel whatever the schedule, and every value ends up at its own pixel
    std::size_t w = 1 + s.draw(19), h = 1 + s.draw(19), n = w * h; std::uint64_t z = s.draw(1000000); int nt = static_cast<int>(1 + s.draw(7)); Image<int> m(w, h); for (std::size_t j = 0; j < n; ++j) m.set(j) = static_cast<int>(j); std::vector<std::atomic<int>> calls(n); s.desc << w << "x" << h << " with " << nt << " threads, delays " << z; s.nontrivial(nt >= 3); omp_set_num_threads(nt);
    auto f = [&](int v) { ++calls[static_cast<std::size_t>(v)]; std::uint64_t q = z + static_cast<std::uint64_t>(v) * 7919; rest(mix(q)); return 3 * v + 1; };
    auto chk = [&](const Image<int>& o, const char* what) { REQ(o.getSize() == m.getSize(), what << ": size"); for (std::size_t j = 0; j < n; ++j) { REQ(o.get(j) == 3 * static_cast<int>(j) + 1, what << ": pixel " << j << " is " << o.get(j)); REQ(calls[j] == 1, what << ": called " << calls[j] << " times for pixel " << j); calls[j] = 0; } };
    chk(apply_each_pixel(std::execution::par, m, f), "apply_each_pixel"); chk(apply_each_pixel_openmp(m, f), "apply_each_pixel_openmp"); chk(pixelwise_transform(std::execution::par, f, m), "pixelwise_transform"); chk(pixelwise_transform(f, m), "pixelwise_transform in sequence"); chk(apply_each_pixel(std::execution::par_unseq, m, f), "apply_each_pixel unsequenced");
    if (w > 2 && h > 2) { std::vector<double> prog; std::atomic<int> inside{0}; bool overlap = false; auto fw = [&](auto&& win) { return f(win.get(win.count() / 2)); }; chk(windowed_filter(std::execution::par, m, std::vector<std::size_t>{1, 1}, fw, BoundaryCondition::mirror, 0, [&](double p) { if (++inside > 1) overlap = true; prog.push_back(p); rest(static_cast<std::uint64_t>(p * 1000)); --inside; }), "windowed_filter"); REQ(!overlap, "the progress callback runs twice at a time"); for (std::size_t j = 0; j < prog.size(); ++j) REQ(prog[j] > 0 && prog[j] <= 1 && (j == 0 || prog[j] > prog[j - 1]), "progress goes from " << (j ? prog[j - 1] : 0.0) << " to " << prog[j]); REQ(!prog.empty(), "no progress reported"); }
    omp_set_num_threads(2);
}
PROP(numbers, "more than one number")
{   // reductions and maps over sequences of numbers
    std::size_t n = s.draw(400); std::uint64_t z = s.draw(1000000); std::vector<double> a, b; for (std::size_t j = 0; j < n; ++j) { a.push_back(static_cast<double>(mix(z) % 2000) - 1000); b.push_back(static_cast<double>(mix(z) % 2000) - 1000); } s.desc << n << " numbers, seed " << z; s.nontrivial(n > 1); auto d = difference(std::execution::par, a, b), e = difference(std::execution::seq, a, b); REQ(d.size() == n && d == e, "policies differ"); for (std::size_t k = 0; k < n; ++k) REQ(d[k] == std::fabs(a[k] - b[k]), "difference " << k); std::vector<double> c(n + 1); REQ(throws<std::runtime_error>([&] { (void)difference(std::execution::par, a, c); }), "different lengths accepted");
    std::atomic<std::size_t> calls{0}; std::uint64_t y = z; auto f = [&](double v) { ++calls; rest(static_cast<std::uint64_t>(v + 1000) + y); return v * 2; }; auto r = recursive_transform<1>(std::execution::par, f, a); REQ(calls == n, "called " << calls << " times for " << n << " numbers"); for (std::size_t k = 0; k < n; ++k) REQ(r[k] == 2 * a[k], "number " << k); double t = 0; for (auto v : a) t += v * v; REQ(square_sum(std::execution::par, a) == t && square_sum(std::execution::par_unseq, a) == t, "square sum");
}
