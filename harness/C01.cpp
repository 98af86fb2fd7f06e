// C01: Image container addressing, bounds, construction, iteration, printing; VolumetricImage
#include "img.h"
#include "cube.h"
using namespace g;
using namespace TinyDIP;

template<class T> T val(Src& s);
template<> std::uint8_t val(Src& s) { return gb(s); }
template<> int val(Src& s) { return static_cast<int>(s.sint(1000)); }
template<> double val(Src& s) { return gd(s); }
template<> RGB val(Src& s) { return grgb(s); }
template<> bool val(Src& s) { return s.flip(); }
// for bool-like generality the oracle is a plain vector of T with its own index arithmetic
template<class T> void check_all(Image<T>& im, const std::vector<T>& model, const Sz& z, const std::string& what)
{
    const Image<T>& c = im;
    REQ(c.getDimensionality() == z.size(), what << " dimensionality");
    REQ(c.getSize() == z, what << " size " << str(c.getSize()));
    for (std::size_t k = 0; k < z.size(); ++k) {
        REQ(c.getSize(k) == z[k], what << " getSize(" << k << ")");
        std::size_t st = 1; for (std::size_t j = 0; j < k; ++j) st *= z[j];
        REQ(c.getStride(k) == st, what << " getStride(" << k << ")=" << c.getStride(k) << " expected " << st);
    }
    REQ(c.count() == prod(z), what << " count");
    REQ(c.count(std::execution::par) == prod(z), what << " count(par)");
    REQ(c.getWidth() == z[0], what << " width");
    REQ(c.getHeight() == (z.size() > 1 ? z[1] : 0), what << " height");
    REQ(c.getImageData().size() == prod(z), what << " data size");
    for (std::size_t i = 0; i < model.size(); ++i) {
        Sz x = coord(i, z);
        const T want = model[i];
        REQ(same(static_cast<T>(c.get(i)), want), what << " get(" << i << ")");
        REQ(same(static_cast<T>(c.at(x)), want) && same(static_cast<T>(im.at(x)), want), what << " at(range " << str(x) << ")");
        REQ(same(static_cast<T>(c.at_without_boundary_check(x)), want) && same(static_cast<T>(im.at_without_boundary_check(x)), want), what << " at_without_boundary_check(range)");
        std::list<int> l(x.begin(), x.end());
        REQ(same(static_cast<T>(c.at(l)), want), what << " at(list)");
        auto chk = [&](auto... a) {
            REQ(same(static_cast<T>(c.at(a...)), want) && same(static_cast<T>(im.at(a...)), want), what << " at" << str(x));
            REQ(same(static_cast<T>(c.at_without_boundary_check(a...)), want) && same(static_cast<T>(im.at_without_boundary_check(a...)), want), what << " at_without" << str(x));
            REQ(same(static_cast<T>(c[a...]), want) && same(static_cast<T>(im[a...]), want), what << " operator[] at " << str(x));
            REQ(same(static_cast<T>(c.at(static_cast<int>(a)...)), want), what << " at(int...)" << str(x));
        };
        switch (z.size()) {
        case 1: chk(x[0]); break;
        case 2: chk(x[0], x[1]); break;
        case 3: chk(x[0], x[1], x[2]); break;
        case 4: chk(x[0], x[1], x[2], x[3]); break;
        case 5: chk(x[0], x[1], x[2], x[3], x[4]); break;
        case 6: chk(x[0], x[1], x[2], x[3], x[4], x[5]); break;
        }
    }
}

// stateful: a history of writes through every write path against a flat model
template<class T> void history(Src& s)
{
    Sz z = dims(s, 1, 4, 1, 6, true); if (s.chance(1, 12)) z = dims(s, 5, 6, 1, 2);
    std::vector<T> model(prod(z));
    s.desc << "size " << str(z) << " ops:";
    std::size_t ctor = s.draw(4);
    Image<T> im;
    if (ctor == 0) {
        im = Image<T>(z);
        for (std::size_t i = 0; i < model.size(); ++i) REQ(same(static_cast<T>(im.get(i)), T{}), "a new image is value-initialised at " << i);
    } else {
        for (std::size_t i = 0; i < model.size(); ++i) model[i] = val<T>(s);
        if (ctor == 1) im = Image<T>(model, z);
        else if (ctor == 2) {
            std::vector<int> iz(z.begin(), z.end());
            im = Image<T>(model, iz);
        } else if (ctor == 3) {
            switch (z.size()) {
            case 1: im = Image<T>(model, z[0]); break;
            case 2: im = Image<T>(model, z[0], z[1]); break;
            case 3: im = Image<T>(model, z[0], z[1], z[2]); break;
            case 4: im = Image<T>(model, z[0], z[1], z[2], z[3]); break;
            case 5: im = Image<T>(model, z[0], z[1], z[2], z[3], z[4]); break;
            case 6: im = Image<T>(model, z[0], z[1], z[2], z[3], z[4], z[5]); break;
            }
        } else {
            if (z.size() != 2) im = Image<T>(model, z);
            else {
                std::vector<std::vector<T>> rows(z[1], std::vector<T>(z[0]));
                for (std::size_t i = 0; i < model.size(); ++i) rows[i / z[0]][i % z[0]] = model[i];
                im = Image<T>(rows);
            }
        }
    }
    check_all(im, model, z, "after construction");
    std::size_t n = s.sz(0, 14);
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t op = s.draw(8), i = s.draw(model.size() - 1);
        Sz x = coord(i, z);
        T v = val<T>(s);
        s.desc << " op" << op << "@" << i << "=" << ps(v);
        switch (op) {
        case 0: im.set(i) = v; model[i] = v; break;
        case 1: im.at(x) = v; model[i] = v; break;
        case 2: im.at_without_boundary_check(x) = v; model[i] = v; break;
        case 3:
            switch (z.size()) {
            case 1: im.at(x[0]) = v; break;
            case 2: im.at(x[0], x[1]) = v; break;
            case 3: im.at(x[0], x[1], x[2]) = v; break;
            case 4: im.at(x[0], x[1], x[2], x[3]) = v; break;
            case 5: im.at(x[0], x[1], x[2], x[3], x[4]) = v; break;
            case 6: im.at(x[0], x[1], x[2], x[3], x[4], x[5]) = v; break;
            }
            model[i] = v; break;
        case 4:
            switch (z.size()) {
            case 1: im[x[0]] = v; break;
            case 2: im[x[0], x[1]] = v; break;
            case 3: im[x[0], x[1], x[2]] = v; break;
            case 4: im[x[0], x[1], x[2], x[3]] = v; break;
            case 5: im[x[0], x[1], x[2], x[3], x[4]] = v; break;
            case 6: im[x[0], x[1], x[2], x[3], x[4], x[5]] = v; break;
            }
            model[i] = v; break;
        case 5: {    // tuple form: a location outside the image is refused and changes nothing
            for (auto& c : x) if (s.chance(1, 5)) c += s.draw(3);
            bool in = true; for (std::size_t q = 0; q < x.size(); ++q) in = in && x[q] < z[q];
            bool r = false;
            switch (z.size()) {
            case 1: r = im.set(std::make_tuple(x[0]), v); break;
            case 2: r = im.set(std::make_tuple(x[0], x[1]), v); break;
            case 3: r = im.set(std::make_tuple(x[0], x[1], x[2]), v); break;
            case 4: r = im.set(std::make_tuple(x[0], x[1], x[2], x[3]), v); break;
            case 5: r = im.set(std::make_tuple(x[0], x[1], x[2], x[3], x[4]), v); break;
            case 6: r = im.set(std::make_tuple(x[0], x[1], x[2], x[3], x[4], x[5]), v); break;
            }
            REQ(r == in, "set(tuple " << str(x) << ") returned " << r << " for an image of " << str(z));
            if (in) model[flat(x, z)] = v;
            break;
        }
        case 6: if (s.flip()) im.setAllValue(v); else im.setAllValue(std::execution::par, v); std::fill(model.begin(), model.end(), v); break;
        case 7: {    // copies are independent
            Image<T> cp = im; REQ(cp == im, "a copy compares equal");
            T old = model[i]; cp.set(i) = v;
            REQ((cp == im) == same(old, v), "a copy that differs in one pixel compares unequal, and writing to it leaves the original");
            REQ((cp != im) == !same(old, v), "operator!= is the negation of ==");
            break;
        }
        case 8:
            if (z.size() == 2) {
                std::size_t cnt = 0;
                for (auto&& [value, px, py] : im.pixels_with_coordinates()) {
                    REQ(px == cnt % z[0] && py == cnt / z[0], "pixel iteration visits (" << px << "," << py << ") as pixel " << cnt);
                    if (cnt % 3 == 0) { value = v; model[cnt] = v; }
                    ++cnt;
                }
                REQ(cnt == model.size(), "pixel iteration visits every pixel once");
                const auto& ci = im; cnt = 0;
                for (auto&& [value, px, py] : ci.pixels_with_coordinates()) {
                    REQ(px == cnt % z[0] && py == cnt / z[0] && same(static_cast<T>(value), static_cast<T>(model[cnt])), "const pixel iteration at " << cnt);
                    ++cnt;
                }
                REQ(cnt == model.size(), "const pixel iteration visits every pixel once");
            } else {
                REQ(throws<std::logic_error>([&] { (void)im.pixels_with_coordinates(); }), "pixel iteration with coordinates is refused on a " << z.size() << "-D image");
            }
            break;
        }
    }
    check_all(im, model, z, "after history");
    s.nontrivial(n >= 2 && prod(z) >= 4);
}
PROP(history_u8, "two or more writes on an image of at least 4 pixels") { history<std::uint8_t>(s); }
PROP(history_double, "two or more writes on an image of at least 4 pixels") { history<double>(s); }
PROP(history_rgb, "two or more writes on an image of at least 4 pixels") { history<RGB>(s); }
PROP(history_bool, "two or more writes on an image of at least 4 pixels") { history<bool>(s); }

PROP(bounds, "at least one index out of range, or the number of indices is wrong")
{
    Sz z = dims(s, 1, 4, 1, 5, true);
    Image<int> im = iimg(s, z); const Image<int>& c = im;
    Image<int> before = im;
    std::size_t nd = s.chance(1, 3) ? s.uz(1, 4) : z.size();
    Sz x; std::vector<long> lx;
    for (std::size_t k = 0; k < nd; ++k) {
        std::size_t lim = k < z.size() ? z[k] : 3;
        long v = static_cast<long>(s.draw(lim - 1));
        if (s.chance(1, 3)) v = static_cast<long>(lim) + static_cast<long>(s.draw(3));
        if (s.chance(1, 12)) v = -1 - static_cast<long>(s.draw(3));
        lx.push_back(v); x.push_back(static_cast<std::size_t>(v));
    }
    bool dim_ok = nd == z.size(), in = dim_ok;
    if (dim_ok) for (std::size_t k = 0; k < nd; ++k) in = in && x[k] < z[k];
    s.desc << "size " << str(z) << " index"; for (auto v : lx) s.desc << " " << v;
    s.nontrivial(!in);
    auto variadic = [&](auto&& f) {
        switch (nd) { case 1: f(lx[0]); break; case 2: f(lx[0], lx[1]); break; case 3: f(lx[0], lx[1], lx[2]); break; case 4: f(lx[0], lx[1], lx[2], lx[3]); break; }
    };
    auto classify = [&](auto&& f) -> int { try { f(); return 0; } catch (const std::out_of_range&) { return 1; } catch (const std::exception&) { return 2; } };
    variadic([&](auto... a) {
        int r1 = classify([&] { (void)im.at(a...); }), r2 = classify([&] { (void)c.at(a...); });
        REQ(r1 == r2, "const and non-const at() agree");
        if (in) REQ(r1 == 0, "at() accepts an index inside the image");
        else if (dim_ok) REQ(r1 == 1, "at() throws out_of_range for an index outside, got " << r1);
        else REQ(r1 == 1 || r1 == 2, "at() refuses the wrong number of indices");
        if (!dim_ok) {
            REQ(classify([&] { (void)im.at_without_boundary_check(a...); }) != 0, "at_without_boundary_check refuses the wrong number of indices");
            REQ(classify([&] { (void)c[a...]; }) != 0, "operator[] refuses the wrong number of indices");
        }
    });
    int r1 = classify([&] { (void)im.at(x); }), r2 = classify([&] { (void)c.at(x); });
    REQ(r1 == r2, "const and non-const at(range) agree");
    if (in) REQ(r1 == 0, "at(range) accepts an index inside");
    else if (dim_ok) REQ(r1 == 1, "at(range) throws out_of_range for an index outside, got " << r1);
    else REQ(r1 != 0, "at(range) refuses the wrong number of indices");
    {
        std::ostringstream sink; std::size_t i = s.draw(prod(z) + 3);
        int r = classify([&] { (void)im.set(i, sink); });
        REQ(r == (i < prod(z) ? 0 : 1), "set(" << i << ") on " << prod(z) << " pixels gave " << r);
    }
    variadic([&](auto... a) {
        int r = classify([&] { bool ok = im.set(std::make_tuple(static_cast<std::size_t>(a)...), 12345); REQ(ok == in, "set(tuple) inside flag"); });
        REQ((r == 0) == dim_ok, "set(tuple) refuses the wrong number of indices, got " << r);
    });
    if (!in) req_eq(im, before, "refused accesses leave the image unchanged");
}

PROP(construction_mismatch, "the data length differs from the product of the sizes")
{
    Sz z = dims(s, 1, 3, 1, 5, true);
    std::size_t n = prod(z);
    if (s.chance(2, 3)) n = s.uz(0, n + 5);
    std::vector<int> d(n); for (auto& v : d) v = static_cast<int>(s.sint(9));
    bool ok = n == prod(z);
    s.nontrivial(!ok);
    s.desc << "size " << str(z) << " data length " << n;
    auto t = [&](auto f, const char* w) { REQ(throws_any(f) == !ok, w << " with " << n << " values for " << str(z)); };
    t([&] { Image<int> i(d, z); }, "Image(range, sizes)");
    std::vector<int> iz(z.begin(), z.end());
    t([&] { Image<int> i(d, iz); }, "Image(range, int sizes)");
    switch (z.size()) {
    case 1: t([&] { Image<int> i(d, z[0]); }, "Image(range, w)"); break;
    case 2: t([&] { Image<int> i(d, z[0], z[1]); }, "Image(range, w, h)"); break;
    case 3: t([&] { Image<int> i(d, z[0], z[1], z[2]); }, "Image(range, w, h, d)"); break;
    }
    if (z.size() == 3) {
        t([&] { VolumetricImage<int> v(d, z[0], z[1], z[2]); }, "VolumetricImage(data, sizes)");
    }
    switch (z.size()) {
    case 1: { Image<int> a(z[0]); REQ(a.count() == prod(z) && a.getSize() == z, "Image(w)"); break; }
    case 2: { Image<int> a(z[0], z[1]); REQ(a.count() == prod(z) && a.getSize() == z, "Image(w,h)"); Image<int> b(iz[0], iz[1]); REQ(b == a, "Image(int,int)"); break; }
    case 3: { Image<int> a(z[0], z[1], z[2]); REQ(a.count() == prod(z) && a.getSize() == z, "Image(w,h,d)"); Image<int> b(iz[0], iz[1], iz[2]); REQ(b == a, "Image(int,int,int)"); break; }
    }
}

PROP(empty_images, "always")
{   // an image without dimensions: no pixels, nothing printed; sizes or rows that are empty are refused
    s.nontrivial(); Image<int> e; REQ(e.count() == 0 && e.count(std::execution::seq) == 0 && e.count(std::execution::par) == 0, "an empty image counts " << e.count() << " and " << e.count(std::execution::seq) << " pixels"); REQ(e.getImageData().empty() && e.getDimensionality() == 0, "an empty image holds pixels"); std::ostringstream o; e.print("\t", o); REQ(o.str().empty(), "an empty image prints \"" << o.str() << "\"");
    auto one = generate([] { return 3; }); REQ(one.getImageData().size() == 1 && one.count() == 1 && one.count(std::execution::seq) == 1, "an image of one pixel without dimensions counts " << one.count() << " and " << one.count(std::execution::seq));
    REQ(throws<std::runtime_error>([] { Image<int> a{std::vector<std::size_t>{}}; }), "an empty list of sizes is not refused"); REQ(throws<std::runtime_error>([] { Image<int> a{std::vector<std::vector<int>>{}}; }), "an empty list of rows is not refused");
    Sz z = dims(s, 1, 4, 1, 4, true); auto a = iimg(s, z); const auto& c = a; s.desc << str(z); REQ(a.count(std::execution::par) == prod(z) && a.count() == prod(z), "count"); REQ(throws<std::logic_error>([&] { (void)a.pixels_with_coordinates(); }) == (z.size() != 2) && throws<std::logic_error>([&] { (void)c.pixels_with_coordinates(); }) == (z.size() != 2), "pixels_with_coordinates of " << str(z));
}
PROP(ragged_rows, "the rows have different lengths")
{
    std::size_t h = s.sz(1, 5), w = s.sz(1, 5);
    std::vector<std::vector<int>> r(h, std::vector<int>(w, 1));
    bool bad = false;
    for (auto& row : r) if (s.chance(1, 3)) { std::size_t n = s.uz(0, 6); row.assign(n, 2); }
    for (auto& row : r) bad = bad || row.size() != r[0].size();
    s.nontrivial(bad);
    s.desc << "row lengths"; for (auto& row : r) s.desc << " " << row.size();
    try {
        Image<int> im(r);
        REQ(im.getImageData().size() == im.count(), "an image holds exactly width*height values, got " << im.getImageData().size() << " for " << str(im.getSize()));
        REQ(!bad, "rows of different lengths are refused");
        REQ(im.getWidth() == r[0].size() && im.getHeight() == h, "size of nested rows");
    } catch (const std::runtime_error&) { REQ(bad, "a rectangular nest of rows is accepted"); }
}

PROP(equality, "same data under another shape, or one differing pixel")
{
    Sz z = dims(s, 1, 3, 1, 5, true);
    auto a = iimg(s, z, 3); auto b = a;
    REQ(a == b && !(a != b), "equal to a copy");
    switch (s.draw(2)) {
    case 0: { std::size_t i = s.draw(prod(z) - 1); b.set(i) = a.get(i) + 1; REQ(!(a == b) && a != b, "one differing pixel"); s.nontrivial(); break; }
    case 1: { Sz z2(z.rbegin(), z.rend()); Image<int> c(data(a), z2); REQ((a == c) == (z == z2), "same data, size " << str(z2)); s.nontrivial(z != z2); break; }
    case 2: { Sz z2 = z; z2.push_back(1); Image<int> c(data(a), z2); REQ(!(a == c), "same data, extra dimension"); s.nontrivial(); break; }
    }
    s.desc << show(a);
}

PROP(cast, "two or more pixels")
{
    Sz z = dims(s, 1, 3, 1, 6, true);
    auto a = gen(s, z, [](Src& t) { return static_cast<double>(t.draw(255)) + static_cast<double>(t.draw(3)) / 4; });
    auto u = a.cast<std::uint8_t>(); auto i = a.cast<int>(); auto f = a.cast<float>();
    REQ(u.getSize() == z && i.getSize() == z && f.getSize() == z, "cast keeps the size");
    for (std::size_t k = 0; k < prod(z); ++k) {
        REQ(u.get(k) == static_cast<std::uint8_t>(a.get(k)), "cast to byte"); REQ(i.get(k) == static_cast<int>(a.get(k)), "cast to int"); REQ(f.get(k) == static_cast<float>(a.get(k)), "cast to float");
    }
    s.desc << show(a); s.nontrivial(prod(z) > 1);
}

PROP(print_text, "two or more pixels")
{
    Sz z = dims(s, 1, 4, 1, 4, true);
    auto a = iimg(s, z); auto b = bimg(s, z); auto r = rgbimg(s, z);
    auto tokens = [](const std::string& t) { std::istringstream i(t); std::vector<std::string> v; std::string w; while (i >> w) v.push_back(w); return v; };
    std::ostringstream o; o << a;
    auto tk = tokens(o.str());
    REQ(tk.size() == prod(z), "printing writes every pixel once");
    for (std::size_t k = 0; k < prod(z); ++k) REQ(tk[k] == std::to_string(a.get(k)), "printed value " << k << " is " << tk[k]);
    std::ostringstream o2; b.print(" ", o2); tk = tokens(o2.str());
    REQ(tk.size() == prod(z), "printing bytes");
    for (std::size_t k = 0; k < prod(z); ++k) REQ(tk[k] == std::to_string(+b.get(k)), "byte printed as number: " << tk[k]);
    std::ostringstream o3; r.print(" ", o3); std::string t3 = o3.str();
    for (auto& ch : t3) if (!std::isdigit(static_cast<unsigned char>(ch))) ch = ' ';
    tk = tokens(t3);
    REQ(tk.size() == 3 * prod(z), "printing RGB");
    for (std::size_t k = 0; k < prod(z); ++k) for (std::size_t c = 0; c < 3; ++c) REQ(tk[3 * k + c] == std::to_string(+r.get(k).channels[c]), "RGB channel printed");
    typedef TinyDIP::MultiChannel<int, 4> M4; TinyDIP::Image<M4> mi(z); for (auto& p : mi.getImageData()) for (auto& c : p.channels) c = static_cast<int>(s.sint(300));
    auto numbers = [&](std::string t) { for (auto& ch : t) if (!std::isdigit(static_cast<unsigned char>(ch)) && ch != '-') ch = ' '; return tokens(t); };
    std::ostringstream o4; mi.print("\t", o4); tk = numbers(o4.str()); REQ(tk.size() == 4 * prod(z), "printing a multi-channel image writes " << tk.size() << " numbers for " << prod(z) << " pixels of four channels");
    for (std::size_t k = 0; k < prod(z); ++k) for (std::size_t c = 0; c < 4; ++c) REQ(tk[4 * k + c] == std::to_string(mi.get(k).channels[c]), "channel " << c << " of pixel " << k << " printed as " << tk[4 * k + c]);
    std::ostringstream o5; o5 << mi.get(0); tk = numbers(o5.str()); REQ(tk.size() == 4, "printing one multi-channel pixel"); for (std::size_t c = 0; c < 4; ++c) REQ(tk[c] == std::to_string(mi.get(0).channels[c]), "channel " << c << " of a printed pixel");
    if (z.size() == 2) {   // one line per row
        std::istringstream is(o.str()); std::string line; std::size_t rows = 0;
        while (std::getline(is, line)) { auto q = tokens(line); if (q.empty()) continue; REQ(q.size() == z[0], "a printed row has the image's width"); ++rows; }
        REQ(rows == z[1], "one line per row");
    }
    s.desc << show(a); s.nontrivial(prod(z) > 1);
}

PROP(volume, "a volume with at least two slices and 4 voxels")
{
    Sz z{s.sz(1, 5), s.sz(1, 5), s.sz(1, 5)};
    std::vector<int> m(prod(z)); for (auto& v : m) v = static_cast<int>(s.sint(99));
    s.desc << "volume " << str(z);
    s.nontrivial(z[2] > 1 && prod(z) >= 4);
    VolumetricImage<int> zero(z[0], z[1], z[2]);
    REQ(zero.getWidth() == z[0] && zero.getHeight() == z[1] && zero.getDepth() == z[2], "size constructor keeps the sizes");
    REQ(zero.getData().size() == prod(z), "size constructor allocates every voxel");
    VolumetricImage<int> fillv(static_cast<int>(z[0]), static_cast<int>(z[1]), static_cast<int>(z[2]), 7);
    REQ(fillv.getData() == std::vector<int>(prod(z), 7), "fill constructor");
    std::vector<Image<int>> slices;
    for (std::size_t k = 0; k < z[2]; ++k) slices.push_back(Image<int>(std::vector<int>(m.begin() + k * z[0] * z[1], m.begin() + (k + 1) * z[0] * z[1]), z[0], z[1]));
    VolumetricImage<int> a(m, z[0], z[1], z[2]), b(slices);
    REQ(a == b, "a volume built from slices equals the one built from flat data");
    const auto& c = a;
    for (std::size_t i = 0; i < m.size(); ++i) { Sz x = coord(i, z); REQ(a.at(x[0], x[1], x[2]) == m[i] && c.at(x[0], x[1], x[2]) == m[i], "voxel " << str(x)); }
    Sz x{s.uz(0, z[0] + 1), s.uz(0, z[1] + 1), s.uz(0, z[2] + 1)};
    bool in = x[0] < z[0] && x[1] < z[1] && x[2] < z[2];
    REQ(throws<std::out_of_range>([&] { (void)c.at(x[0], x[1], x[2]); }) == !in, "voxel access " << str(x) << " in " << str(z));
    if (in) { b.at(x[0], x[1], x[2]) += 1; m[flat(x, z)] += 1; REQ(b.getData() == m && !(a == b) && a != b, "voxel write"); }
    std::ostringstream o; o << b; std::istringstream is(o.str()); std::vector<int> back; int v; while (is >> v) back.push_back(v);
    REQ(back == m, "a printed volume lists every voxel in order");
}
