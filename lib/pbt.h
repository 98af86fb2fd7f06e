// Minimal property-based testing engine: choice-sequence generators, replayable cases.
// A case is the list of bounded integers it drew; 0 is always the simplest choice, so shrinking the
// list (done by run.py, one process per candidate, so that crashes shrink too) shrinks the input.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include </usr/include/unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

inline std::uint64_t splitmix(std::uint64_t& x)
{
    std::uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
inline std::uint64_t fnv(std::string_view s, std::uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

class Src {
public:
    std::uint64_t state = 0;
    bool replay = false;
    std::vector<std::uint64_t> choices;      // recorded or to replay
    std::size_t pos = 0;
    int size = 50;                           // 0..100
    bool is_nontrivial = false;
    std::ostringstream desc;
    int dump_fd = -1;
    std::uint64_t hash = 1469598103934665603ULL;

    // uniform integer in [0, bound]
    std::uint64_t draw(std::uint64_t bound)
    {
        std::uint64_t v = 0;
        if (replay) {
            if (pos < choices.size()) { v = choices[pos]; if (bound != ~0ULL && v > bound) v %= (bound + 1); }
            ++pos;
        } else {
            v = bound == ~0ULL ? splitmix(state) : (bound ? splitmix(state) % (bound + 1) : 0);
            choices.push_back(v);
            if (dump_fd >= 0) { std::string t = std::to_string(v) + " "; if (::write(dump_fd, t.data(), t.size()) < 0) {} }
        }
        hash ^= v + 0x9E3779B97F4A7C15ULL + (hash << 6) + (hash >> 2);
        return v;
    }
    long in(long lo, long hi) { return hi <= lo ? (draw(0), lo) : lo + static_cast<long>(draw(static_cast<std::uint64_t>(hi - lo))); }
    std::size_t uz(std::size_t lo, std::size_t hi) { return static_cast<std::size_t>(in(static_cast<long>(lo), static_cast<long>(hi))); }
    // size-scaled upper bound: lo .. lo + (hi-lo)*size/100, at least lo+1 when hi>lo
    std::size_t sz(std::size_t lo, std::size_t hi)
    {
        std::size_t span = (hi - lo) * static_cast<std::size_t>(replay ? 100 : size) / 100;
        if (span == 0 && hi > lo) span = 1;
        // recorded value is relative to lo, so replay with the full span reproduces it
        std::uint64_t v = draw(span);
        return lo + static_cast<std::size_t>(v);
    }
    long sint(long mag)                       // symmetric around 0, simplest is 0
    {
        std::uint64_t v = draw(static_cast<std::uint64_t>(2 * mag));
        return (v & 1) ? static_cast<long>((v + 1) / 2) : -static_cast<long>(v / 2);
    }
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool flip() { return draw(1) == 1; }
    // usually lo..hi, now and then far beyond
    std::size_t tail(std::size_t lo, std::size_t hi, std::size_t far) { return draw(19) == 19 ? uz(hi, far) : sz(lo, hi); }
    double unit() { return static_cast<double>(draw((1ULL << 30) - 1)) / static_cast<double>(1ULL << 30); }
    double real(double lo, double hi) { return lo + unit() * (hi - lo); }
    // a "nice" double: dyadic, exactly representable, small magnitude
    double dyadic(long mag = 64, long den = 16) { return static_cast<double>(sint(mag * den)) / static_cast<double>(den); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
    void discard() { throw Discard{}; }
};

using Fn = std::function<void(Src&)>;
struct Sub { std::string name; std::string rule; Fn fn; double weight; };
inline std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
struct Known { std::string id; std::string what; std::function<bool()> still_fails; };
inline std::vector<Known>& knowns() { static std::vector<Known> s; return s; }
struct Reg { Reg(const char* n, const char* r, Fn f, double w = 1) { subs().push_back({n, r, std::move(f), w}); } };
struct RegK { RegK(const char* n, const char* r, std::function<bool()> f) { knowns().push_back({n, r, std::move(f)}); } };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, "what makes a case non-trivial") { body using pbt::Src& s }
#define PROP(name, rule) \
    static void PBT_CAT(prop_, name)(pbt::Src& s); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, rule, PBT_CAT(prop_, name)); \
    static void PBT_CAT(prop_, name)([[maybe_unused]] pbt::Src& s)
#define PROPW(name, weight, rule) \
    static void PBT_CAT(prop_, name)(pbt::Src& s); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, rule, PBT_CAT(prop_, name), weight); \
    static void PBT_CAT(prop_, name)([[maybe_unused]] pbt::Src& s)

#define REQ(cond, ...) do { if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << "[" #cond "] " << __VA_ARGS__; throw pbt::Fail{o_.str()}; } } while (0)

inline std::string scratch()
{
    const char* p = std::getenv("VP_SCRATCH");
    if (!p) { static char t[] = "/tmp/vp_scratch_XXXXXX"; static bool done = false; if (!done) { if (!mkdtemp(t)) std::abort(); done = true; } return t; }
    return p;
}

inline std::string js(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

// returns "" if the case held, otherwise the failure message; *discarded set on discard
inline std::string run_case(const Sub& sub, Src& s, bool* discarded)
{
    *discarded = false;
    try { sub.fn(s); return ""; }
    catch (const Discard&) { *discarded = true; return ""; }
    catch (const Fail& f) { return f.msg.empty() ? "failed" : f.msg; }
    catch (const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
    catch (...) { return "unexpected non-standard exception"; }
}

inline void seed_case(Src& s, std::uint64_t seed, const std::string& sub, std::uint64_t index)
{
    std::uint64_t x = seed * 0x9E3779B97F4A7C15ULL ^ fnv(sub) ^ (index * 0xD1B54A32D192ED03ULL);
    splitmix(x);
    s.state = x;
    s.size = static_cast<int>((index * 13) % 20) * 5 + 5;
}

inline int pbt_main(int argc, char** argv)
{
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) {
            std::string v = (i + 1 < argc && std::strncmp(argv[i + 1], "--", 2) != 0) ? argv[++i] : "";
            opt[a.substr(2)] = v;
        }
    }
    auto num = [&](const char* k, double d) { return opt.count(k) ? std::atof(opt[k].c_str()) : d; };
    if (opt.count("list")) {
        for (auto& s : subs()) std::cout << s.name << "\t" << s.rule << "\n";
        return 0;
    }
    if (opt.count("knowns")) {   // result to file: id \t 0/1 \t what
        std::ofstream out(opt["out"]);
        for (auto& k : knowns()) { bool f = true; try { f = k.still_fails(); } catch (...) { f = true; } out << k.id << "\t" << f << "\t" << k.what << "\n"; }
        return 0;
    }
    auto find = [&](const std::string& n) -> const Sub* { for (auto& s : subs()) if (s.name == n) return &s; return nullptr; };
    if (opt.count("one")) {      // run one generated case, streaming its choices
        const Sub* sub = find(opt["one"]);
        if (!sub) return 4;
        Src s; seed_case(s, std::strtoull(opt["seed"].c_str(), nullptr, 10), sub->name, std::strtoull(opt["index"].c_str(), nullptr, 10));
        s.dump_fd = ::open(opt["dump"].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        bool d; std::string m = run_case(*sub, s, &d);
        std::ofstream out(opt["out"]);
        out << m << "\n" << s.desc.str() << "\n";
        out.close(); std::_Exit(m.empty() ? 0 : 3);
    }
    if (opt.count("choices")) {  // replay a choice list; file: "<sub>\n<c0 c1 ...>\n"
        std::ifstream f(opt["choices"]);
        std::string name; std::getline(f, name);
        const Sub* sub = find(name);
        if (!sub) return 4;
        Src s; s.replay = true; s.size = 100;
        std::uint64_t v; while (f >> v) s.choices.push_back(v);
        bool d; std::string m = run_case(*sub, s, &d);
        std::ofstream out(opt["out"]);
        out << m << "\n" << s.desc.str() << "\n";
        out << "USED " << s.pos << "\n";
        out.close(); std::_Exit(m.empty() ? 0 : 3);
    }
    // worker mode
    const std::uint64_t seed = std::strtoull(opt["seed"].c_str(), nullptr, 10);
    const std::uint64_t W = static_cast<std::uint64_t>(num("workers", 1)), w = static_cast<std::uint64_t>(num("worker", 0));
    const double secs = num("secs", 5);
    const std::uint64_t mincases = static_cast<std::uint64_t>(num("mincases", 20));
    const std::string out = opt["out"];
    int pfd = ::open((out + ".cur").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
    if (::ftruncate(pfd, 64) != 0) return 5;
    auto* cur = static_cast<volatile std::uint64_t*>(::mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0));
    struct St { std::uint64_t n = 0, nontriv = 0, disc = 0; double t = 0; std::unordered_set<std::uint64_t> seen; std::vector<std::string> samples; };
    std::vector<St> st(subs().size());
    std::string only = opt.count("only") ? opt["only"] : "";
    std::vector<char> active(subs().size(), 1);
    if (!only.empty()) for (std::size_t i = 0; i < subs().size(); ++i) active[i] = ("," + only + ",").find("," + subs()[i].name + ",") != std::string::npos;
    std::string fail_msg, fail_sub, fail_choices, fail_desc; std::uint64_t fail_index = 0;
    auto now = [] { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
    const double t0 = now();
    bool failed = false;
    double wsum = 0; for (std::size_t i = 0; i < subs().size(); ++i) if (active[i]) wsum += subs()[i].weight;
    while (!failed) {
        bool under = false; double best = 1e300; std::size_t bi = subs().size();
        const double el = now() - t0;
        for (std::size_t i = 0; i < subs().size(); ++i) {
            if (!active[i]) continue;
            if (st[i].n < mincases) under = true;
            double prio = (st[i].t + 1e-6 * static_cast<double>(st[i].n)) / subs()[i].weight;
            if (el > secs && st[i].n >= mincases) continue;
            if (prio < best) { best = prio; bi = i; }
        }
        if (bi == subs().size() || (el > secs && !under) || el > secs * 8 + 60) break;
        const Sub& sub = subs()[bi]; St& x = st[bi];
        const double ts = now();
        const double slice = std::min(0.5, secs / wsum / 4);
        do {
            const std::uint64_t index = x.n * W + w;
            cur[0] = bi; cur[1] = index; cur[2] = cur[2] + 1;
            Src s; seed_case(s, seed, sub.name, index);
            bool disc; std::string m = run_case(sub, s, &disc);
            ++x.n;
            if (disc) { ++x.disc; continue; }
            if (!m.empty()) {
                failed = true; fail_msg = m; fail_sub = sub.name; fail_index = index; fail_desc = s.desc.str();
                for (auto c : s.choices) fail_choices += std::to_string(c) + " ";
                break;
            }
            if (s.is_nontrivial && x.seen.size() < 400000 && x.seen.insert(s.hash).second) {
                ++x.nontriv;
                if (x.samples.size() < 3 && s.size >= 20) x.samples.push_back(s.desc.str().substr(0, 400));
            }
        } while (now() - ts < slice && x.n < 100000000);
        x.t += now() - ts;
    }
    std::ofstream o(out + ".json");
    o << "{\"failed\":" << (failed ? "true" : "false") << ",\"fail_sub\":" << js(fail_sub) << ",\"fail_index\":" << fail_index
      << ",\"fail_msg\":" << js(fail_msg) << ",\"fail_desc\":" << js(fail_desc) << ",\"fail_choices\":" << js(fail_choices) << ",\"subs\":{";
    bool first = true;
    for (std::size_t i = 0; i < subs().size(); ++i) {
        if (!active[i]) continue;
        if (!first) o << ","; first = false;
        o << js(subs()[i].name) << ":{\"n\":" << st[i].n << ",\"nontrivial\":" << st[i].nontriv << ",\"discarded\":" << st[i].disc << ",\"rule\":" << js(subs()[i].rule) << ",\"samples\":[";
        for (std::size_t k = 0; k < st[i].samples.size(); ++k) o << (k ? "," : "") << js(st[i].samples[k]);
        o << "]}";
    }
    o << "}}\n";
    o.close();
    std::ofstream h(out + ".hash", std::ios::binary);
    for (std::size_t i = 0; i < subs().size(); ++i) for (auto v : st[i].seen) { std::uint64_t t = v ^ (i * 0x9E3779B97F4A7C15ULL); h.write(reinterpret_cast<const char*>(&t), 8); }
    h.close();
    std::_Exit(failed ? 3 : 0);
}
} // namespace pbt
#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#endif
