// Minimal property-based testing engine: choice-sequence generation, so that every case is a
// vector of integers that can be stored, replayed and shrunk from outside the process (also
// when the case kills the process).
//
//   run    : --run --seed S --worker I --workers N --cases M --time T --state F --stats F
//   replay : --replay FILE            exit 0 property held, 3 property violated
//   fuzz   : --fuzz ...               libFuzzer mutates the choices, guided by coverage (built with VP_FUZZ)
//
// A harness defines   void vp::property(vp::gen& g)   which draws its input from g and calls
// vp::fail(...) / VP_REQUIRE when the property does not hold.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vp {

// not derived from std::exception on purpose: a harness that accepts "some exception" must not
// swallow a failed requirement.
struct failure { std::string msg; };
struct discard {};

[[noreturn]] inline void fail(std::string msg) { throw failure{std::move(msg)}; }

inline std::uint64_t mix(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

// strings and numbers that occur in the code under test (VP_DICT): generators use them now and then, as a fuzzer uses its dictionary
struct dictionary {
    std::map<std::size_t, std::vector<std::string>> words;   // by length
    std::vector<std::uint64_t> numbers;
    static const dictionary& get()
    {
        static const auto* d = [] {
            auto* r = new dictionary;
            const char* f = std::getenv("VP_DICT");
            std::ifstream in(f ? f : "/dev/null");
            for (std::string kind, v; in >> kind >> v; ) {
                if (kind == "n") { r->numbers.push_back(std::stoull(v)); continue; }
                std::string w;
                for (std::size_t i = 0; i + 1 < v.size(); i += 2) w.push_back(static_cast<char>(std::stoi(v.substr(i, 2), nullptr, 16)));
                r->words[w.size()].push_back(w);
            }
            return r;
        }();
        return *d;
    }
};

struct shared_state {
    static constexpr std::size_t max_choices = 1u << 17;
    std::uint64_t case_index;
    std::uint64_t count;
    std::uint64_t choices[max_choices];
};

class gen {
public:
    gen(std::uint64_t seed, shared_state* st) : state_(st), rng_(seed) { state_->count = 0; }
    gen(std::vector<std::uint64_t> replay, shared_state* st) : state_(st), replaying_(true), replay_(std::move(replay)) { state_->count = 0; }

    /// choices taken from bytes, zero when they run out
    struct bytes_source { const std::uint8_t* p; std::size_t n; };
    gen(bytes_source b, shared_state* st) : state_(st), from_bytes_(true), src_(b) { state_->count = 0; }
    /// writes down the bytes that lead to the same choices
    void write_bytes_to(std::string* s) { sink_ = s; }
    static unsigned width(std::uint64_t max) { return max == 0 ? 0 : max < 256 ? 1 : max < 65536 ? 2 : max < (1ULL << 32) ? 4 : 8; }

    /// uniform in [0, max]; 0 is the simplest value
    std::uint64_t draw(std::uint64_t max, std::uint64_t forced = ~0ULL)
    {
        std::uint64_t v;
        if (from_bytes_) {
            v = 0;
            for (unsigned i = 0; i < width(max); ++i) { v = v << 8 | (src_.n ? *src_.p : 0); if (src_.n) { ++src_.p; --src_.n; } }
        }
        else if (replaying_) v = pos_ < replay_.size() ? replay_[pos_] : 0;
        else if (forced != ~0ULL) v = forced;
        else {
            v = next();
            const auto& nums = dictionary::get().numbers;
            if (max >= 1000 && !nums.empty() && max < (1ULL << 60) && v >> 58 == 0) { // one in 64
                auto r = next();
                auto w = nums[(r >> 8) % nums.size()] + (r & 3 ? 0 : r & 4 ? 1 : -1ULL);
                if (w <= max) v = w;
            }
        }
        ++pos_;
        if (max != ~0ULL && v > max) v = replaying_ ? max : v % (max + 1);
        record(v);
        if (sink_) for (unsigned i = width(max); i-- > 0; ) sink_->push_back(static_cast<char>(v >> (8 * i)));
        return v;
    }
    /// uniform in [lo, hi]
    template <typename T = std::uint64_t> T range(T lo, T hi)
    { return static_cast<T>(static_cast<std::uint64_t>(lo) + draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo))); }
    /// true with probability num/den; false is simplest
    bool chance(unsigned num, unsigned den = 100) { return draw(den - 1) >= den - num; }
    bool boolean() { return draw(1) != 0; }
    template <typename C> auto pick(const C& c) -> typename C::value_type { return c[draw(c.size() - 1)]; }
    template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
    /// index of a weighted alternative; put the simplest first
    std::size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned total = 0; for (auto x : w) total += x;
        auto v = draw(total - 1); std::size_t i = 0;
        for (auto x : w) { if (v < x) return i; v -= x; ++i; }
        return i - 1;
    }
    /// size in [0, max], mostly small, sometimes up to max
    std::uint64_t size(std::uint64_t max)
    {
        switch (weighted({4, 4, 2})) {
        case 0: return draw(std::min<std::uint64_t>(max, 4));
        case 1: return draw(std::min<std::uint64_t>(max, max / 8 + 8));
        default: return draw(max);
        }
    }
    /// n bytes that cost two choices: a style and a seed (0: zeros)
    std::string blob(std::size_t n)
    {
        std::string s(n, '\0');
        auto style = draw(3);
        auto seed = draw((1u << 30) - 1);
        if (style == 3 && n <= 64) return bytes(n); // byte by byte
        if (seed == 0) return s;
        std::uint64_t x = seed;
        for (std::size_t i = 0; i < n; ) {
            x = mix(x + 0x1234567);
            for (int k = 0; k < 8 && i < n; ++k, ++i) {
                auto b = static_cast<unsigned char>(x >> (8 * k));
                if (style == 1) b &= 1;                // nearly constant data
                if (style == 2) b = static_cast<unsigned char>(seed); // constant data
                s[i] = static_cast<char>(b);
            }
        }
        return s;
    }
    /// n bytes, one choice each (for short strings that should shrink bytewise)
    std::string bytes(std::size_t n)
    {
        return text(n, {});
    }
    std::string text(std::size_t n, std::string_view alphabet)
    {
        std::string s; s.reserve(n);
        std::size_t at = n;
        const auto* w = word(n, at);
        for (std::size_t i = 0; i < n; ++i) {
            std::uint64_t forced = ~0ULL;
            if (w && i >= at && i - at < w->size()) {
                auto c = static_cast<unsigned char>((*w)[i - at]);
                if (alphabet.empty()) forced = c;
                else if (auto k = alphabet.find(static_cast<char>(c)); k != alphabet.npos) forced = k;
            }
            if (alphabet.empty()) s.push_back(static_cast<char>(draw(255, forced)));
            else s.push_back(alphabet[draw(alphabet.size() - 1, forced)]);
        }
        return s;
    }
    /// classify this case
    void label(const std::string& l) { labels_.insert(l); }
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    /// human readable description of the case, shown in samples and on replay
    std::ostringstream& note() { return note_; }

    std::uint64_t hash() const
    {
        std::uint64_t h = state_->count;
        for (std::size_t i = 0; i < std::min<std::size_t>(state_->count, shared_state::max_choices); ++i) h = mix(h ^ state_->choices[i]);
        return h;
    }
    const std::set<std::string>& labels() const { return labels_; }
    bool is_nontrivial() const { return nontrivial_; }
    bool replaying() const { return replaying_; }

private:
    /// now and then a word of the dictionary and where to put it, in n characters
    const std::string* word(std::size_t n, std::size_t& at)
    {
        if (replaying_ || from_bytes_ || n == 0) return nullptr;
        const auto& d = dictionary::get().words;
        auto r = next();
        if (d.empty() || r % 16) return nullptr;
        auto it = d.find(n);
        if (it == d.end() || (r >> 8) % 3 == 0) { // a shorter one
            auto k = std::distance(d.begin(), d.upper_bound(n));
            if (k == 0) return nullptr;
            it = std::next(d.begin(), (r >> 16) % k);
        }
        const auto& l = it->second;
        const auto* w = &l[(r >> 24) % l.size()];
        const auto room = n - w->size();
        at = (r >> 40) % 3 == 0 ? 0 : (r >> 40) % 3 == 1 ? room : (r >> 44) % (room + 1);
        return w;
    }
    std::uint64_t next() { rng_ = mix(rng_ + 0x632be59bd9b4e019ULL); return rng_; }
    void record(std::uint64_t v)
    {
        if (state_->count < shared_state::max_choices) state_->choices[state_->count] = v;
        ++state_->count;
    }
    shared_state* state_;
    bool replaying_ = false;
    bool from_bytes_ = false;
    bytes_source src_ {nullptr, 0};
    std::string* sink_ = nullptr;
    std::vector<std::uint64_t> replay_ {};
    std::size_t pos_ = 0;
    std::uint64_t rng_ = 0;
    std::set<std::string> labels_ {};
    bool nontrivial_ = false;
    std::ostringstream note_ {};
};

void property(gen& g);          // defined by the harness
extern const char* const rule;  // what a case is and which cases are non-trivial

template <typename A> inline std::string show(const A& a)
{
    std::ostringstream o;
    if constexpr (std::is_enum_v<A>) o << static_cast<long long>(a);
    else if constexpr (std::is_same_v<A, std::byte>) o << static_cast<int>(a);
    else if constexpr (requires { o << a; }) o << a;
    else o << "<value>";
    return o.str();
}
inline std::string quoted(std::string_view s, std::size_t limit = 200)
{
    std::string o = "\"";
    for (unsigned char c : s.substr(0, limit)) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += char(c);
    }
    o += '"';
    if (s.size() > limit) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}

#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_REQUIRE(cond, ...) do { if (!(cond)) { ::std::ostringstream vp_o; vp_o << "line " VP_STR(__LINE__) ": " #cond; vp_o << "  " __VA_ARGS__; ::vp::fail(vp_o.str()); } } while (0)
#define VP_EQ(a, b, ...) do { const auto& vp_a = (a); const auto& vp_b = (b); if (!(vp_a == vp_b)) { ::std::ostringstream vp_o; vp_o << "line " VP_STR(__LINE__) ": " #a " == " #b "  got " << ::vp::show(vp_a) << " want " << ::vp::show(vp_b) << "  " __VA_ARGS__; ::vp::fail(vp_o.str()); } } while (0)

inline std::string json_string(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

/// scratch directory of this process, removed at exit by the driver
inline std::filesystem::path scratch()
{
    static std::filesystem::path p = [] {
        const char* b = std::getenv("VP_SCRATCH");
        std::filesystem::path d = std::filesystem::path(b ? b : "/tmp") / ("vp-case-" + std::to_string(::getpid()));
        std::filesystem::create_directories(d);
        return d;
    }();
    return p;
}
inline void remove_scratch()
{
    std::error_code ec;
    std::filesystem::remove_all(scratch(), ec);
}

/// runs one case; returns the failure message if the property does not hold
inline std::optional<std::string> run_case(gen& g, bool& discarded)
{
    discarded = false;
    try {
        property(g);
        return std::nullopt;
    }
    catch (const failure& f) { return f.msg; }
    catch (const discard&) { discarded = true; return std::nullopt; }
    catch (const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
    catch (...) { return "unexpected exception of unknown type"; }
}

// ---- leak mode (VP_LEAKS): a case is run again and again; what it acquires has to be released each time ----
inline std::atomic<long long>& live_blocks() { static std::atomic<long long> n{0}; return n; }
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
inline void on_malloc(const volatile void* p, std::size_t) { if (p) live_blocks().fetch_add(1, std::memory_order_relaxed); }
inline void on_free(const volatile void* p) { if (p) live_blocks().fetch_sub(1, std::memory_order_relaxed); }
inline void count_blocks() { static bool once = (live_blocks(), __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true); (void)once; }
#else
inline void count_blocks() { }
#endif
inline long long entries_of(const char* dir)
{
    long long n = 0;
    if (auto* d = ::opendir(dir)) { while (::readdir(d)) ++n; ::closedir(d); }
    return n;
}
struct resources {
    std::array<long long, 3> n;
    static resources now() { return {{live_blocks().load(), entries_of("/proc/self/fd"), entries_of("/proc/self/task")}}; }
    static const char* name(std::size_t i) { const char* s[] = {"blocks of memory", "open file descriptors", "threads"}; return s[i]; }
};
inline std::optional<std::string> leak_of(const std::vector<std::uint64_t>& choices)
{
    static auto st = std::make_unique<shared_state>();
    bool other = false;
    auto again = [&] { gen g(choices, st.get()); bool discarded = false; other = other || run_case(g, discarded); };
    again();
    std::vector<resources> seen{resources::now()};
    seen.reserve(64);
    // a leak grows every single time; caches and late releases do not
    for (int i = 1; i <= 24; ++i) {
        again();
        if (other) return std::nullopt;   // some other property is violated
        seen.push_back(resources::now());
        bool growing = false;
        for (std::size_t k = 0; k < 3; ++k) {
            bool all = true;
            for (std::size_t j = 1; j < seen.size(); ++j) all = all && seen[j].n[k] > seen[j - 1].n[k];
            growing = growing || all;
        }
        if (!growing) return std::nullopt;
    }
    std::string msg = "not released, counted after each of 25 runs of the same case:";
    for (std::size_t k = 0; k < 3; ++k) if (seen.back().n[k] >= seen.front().n[k] + 24) {
        msg += std::string(" ") + resources::name(k) + ":";
        for (auto& r : seen) msg += " " + std::to_string(r.n[k]);
    }
    return msg;
}
inline bool leak_mode() { static const bool b = std::getenv("VP_LEAKS") != nullptr; return b; }
/// as run_case, or in leak mode only whether the case leaks
inline std::optional<std::string> judge_case(gen& g, bool& discarded, const shared_state& st)
{
    if (leak_mode()) count_blocks();
    auto r = run_case(g, discarded);
    if (!leak_mode()) return r;
    if (r || discarded || st.count > shared_state::max_choices) return std::nullopt;
    return leak_of({st.choices, st.choices + st.count});
}

// a case that does not finish: say which one, then die by the signal
inline gen*& current_case() { static gen* p = nullptr; return p; }
inline void on_alarm(int sig)
{
    std::signal(sig, SIG_DFL);
    ::alarm(2);   // in case the printing below gets stuck
    if (auto* g = current_case()) {
        auto s = "HANG: the case did not finish in time\ncase: " + g->note().str() + "\n";
        if (::write(1, s.data(), s.size()) < 0) { }
    }
    std::raise(sig);
}
inline unsigned case_alarm()
{
    const char* a = std::getenv("VP_CASE_ALARM");
    return a ? static_cast<unsigned>(std::atoi(a)) : 60;
}

/// what the cases run so far were
struct tally_t {
    std::string file;
    std::uint64_t evaluations = 0, discards = 0, nontrivial = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::string> samples;
    std::optional<std::string> violation;
    bool out_of_time = false;

    void count(gen& g, bool discarded)
    {
        if (discarded) { ++discards; return; }
        ++evaluations;
        for (const auto& l : g.labels()) ++labels[l];
        if (!g.is_nontrivial()) return;
        ++nontrivial;
        if (distinct.size() < 60000) distinct.insert(g.hash());
        if (samples.size() < 4) samples.push_back(g.note().str());
    }
    void write()
    {
        std::ofstream o(file);
        o << "{\"evaluations\":" << evaluations << ",\"discarded\":" << discards << ",\"nontrivial\":" << nontrivial
          << ",\"out_of_time\":" << (out_of_time ? "true" : "false") << ",\"labels\":{";
        bool first = true;
        for (auto& [k, v] : labels) { o << (first ? "" : ",") << json_string(k) << ":" << v; first = false; }
        o << "},\"samples\":[";
        first = true;
        for (auto& s : samples) { o << (first ? "" : ",") << json_string(s.substr(0, 600)); first = false; }
        o << "],\"violation\":" << (violation ? json_string(*violation) : "null") << ",\"distinct\":[";
        first = true;
        for (auto h : distinct) { o << (first ? "" : ",") << '"' << std::hex << h << std::dec << '"'; first = false; }
        o << "]}";
    }
};
inline tally_t& tally() { static auto* t = new tally_t; return *t; }

#ifdef VP_FUZZ
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*)(const std::uint8_t*, std::size_t));
inline shared_state*& fuzz_state() { static shared_state* st = nullptr; return st; }
inline int fuzz_one(const std::uint8_t* p, std::size_t n)
{
    auto* st = fuzz_state();
    ++st->case_index;
    gen g(gen::bytes_source{p, n}, st);
    current_case() = &g;
    ::alarm(case_alarm());
    bool discarded = false;
    auto violation = judge_case(g, discarded, *st);
    ::alarm(0);
    current_case() = nullptr;
    tally().count(g, discarded);
    if (violation) {
        tally().violation = violation;
        tally().write();
        remove_scratch();
        ::_exit(3);
    }
    return discarded ? -1 : 0;
}
/// libFuzzer over the bytes the choices come from; starts from random cases
inline int fuzz(std::uint64_t seed, std::uint64_t worker, double budget, const std::string& corpus, shared_state* st)
{
    std::filesystem::create_directories(corpus);
    std::signal(SIGALRM, on_alarm);
    const auto start = std::chrono::steady_clock::now();
    for (int i = 0; i < 300; ++i) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > budget / 4) break;
        gen g(mix(seed * 77 + 5) ^ mix(worker * 1000003ULL + i), st);
        std::string b;
        g.write_bytes_to(&b);
        current_case() = &g;
        ::alarm(case_alarm());
        bool discarded = false;
        auto violation = judge_case(g, discarded, *st);
        ::alarm(0);
        current_case() = nullptr;
        tally().count(g, discarded);
        if (violation) { tally().violation = violation; tally().write(); remove_scratch(); return 3; }
        if (!discarded && b.size() <= 8192) std::ofstream(corpus + "/" + std::to_string(i), std::ios::binary) << b;
    }
    fuzz_state() = st;
    scratch();
    std::vector<std::string> args{"fuzz", "-seed=" + std::to_string(mix(seed * 131 + worker) % 4000000000u + 1), "-runs=-1",
        "-max_total_time=" + std::to_string(static_cast<int>(budget)), "-max_len=8192", "-len_control=0", "-use_value_profile=1", "-timeout=0",
        "-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0", "-handle_abrt=0", "-handle_bus=0", "-handle_fpe=0", "-handle_ill=0", "-handle_int=0",
        "-handle_segv=0", "-handle_term=0", "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", "-print_final_stats=1", "-verbosity=0", "-artifact_prefix=" + corpus + "/../", corpus};
    if (const char* d = std::getenv("VP_DICT")) args.push_back("-dict=" + std::string(d) + ".fuzz");
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    int argc = static_cast<int>(args.size());
    char** av = argv.data();
    std::atexit([] { tally().write(); remove_scratch(); });
    ::exit(LLVMFuzzerRunDriver(&argc, &av, fuzz_one));
}
#endif

inline int run_main(int argc, char** argv)
{
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        if (k.rfind("--", 0) == 0) {
            if (i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) opt[k] = argv[++i];
            else opt[k] = "";
        }
    }
    if (opt.count("--rule")) { std::cout << rule << "\n"; return 0; }

    if (opt.count("--replay")) {
        // one case, or several run one after the other in this process, separated by "---"
        auto st = std::make_unique<shared_state>();
        std::vector<std::vector<std::uint64_t>> sequence(1);
        std::ifstream in(opt["--replay"]);
        std::string line;
        while (std::getline(in, line)) {
            if (line.empty() || line[0] == '#') continue;
            if (line == "---") { sequence.emplace_back(); continue; }
            std::istringstream ls(line); std::uint64_t v;
            while (ls >> v) sequence.back().push_back(v);
        }
        std::signal(SIGALRM, on_alarm);
        bool failed = false;
        for (auto& choices : sequence) {
            gen g(choices, st.get());
            current_case() = &g;
            ::alarm(case_alarm());
            bool discarded = false;
            auto r = judge_case(g, discarded, *st);
            ::alarm(0);
            failed = failed || r;
            if (sequence.size() == 1 && opt.count("--out")) {
                std::ofstream o(opt["--out"]);
                for (std::size_t i = 0; i < std::min<std::size_t>(st->count, shared_state::max_choices); ++i) o << st->choices[i] << "\n";
            }
            if (!opt.count("--quiet")) {
                std::cout << "case: " << g.note().str() << "\n";
                std::cout << (r ? "VIOLATED: " + *r : discarded ? std::string("discarded") : std::string("held")) << std::endl;
            }
            if (r) break;
        }
        remove_scratch();
        return failed ? 3 : 0;
    }

    const auto seed = std::stoull(opt["--seed"]);
    const auto worker = std::stoull(opt["--worker"]);
    const auto workers = std::stoull(opt["--workers"]);
    const auto cases = std::stoull(opt["--cases"]);
    const auto budget = std::stod(opt["--time"]);

    int fd = ::open(opt["--state"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ::ftruncate(fd, sizeof(shared_state)) != 0) { std::perror("state"); return 2; }
    auto* st = static_cast<shared_state*>(::mmap(nullptr, sizeof(shared_state), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (st == MAP_FAILED) { std::perror("mmap"); return 2; }

    auto& t = tally();
    t.file = opt["--stats"];
    const auto start = std::chrono::steady_clock::now();
#ifdef VP_FUZZ
    if (opt.count("--fuzz")) return fuzz(seed, worker, budget, opt["--corpus"], st);
#endif
    std::signal(SIGALRM, on_alarm);
    std::optional<std::string> violation;
    const std::uint64_t from = opt.count("--from") ? std::stoull(opt["--from"]) : 0;
    std::ofstream dump;
    if (opt.count("--dump")) dump.open(opt["--dump"]);
    for (std::uint64_t i = worker; i < cases; i += workers) {
        if (i < from) continue;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > budget) { t.out_of_time = true; break; }
        st->case_index = i;
        gen g(mix(seed) ^ mix(i * 2654435761ULL + 17), st);
        current_case() = &g;
        ::alarm(case_alarm());
        bool discarded = false;
        violation = judge_case(g, discarded, *st);
        ::alarm(0);
        if (dump.is_open()) {
            for (std::size_t k = 0; k < std::min<std::size_t>(st->count, shared_state::max_choices); ++k) dump << st->choices[k] << ' ';
            dump << "\n" << std::flush;
        }
        t.count(g, discarded);
        if ((t.violation = violation)) break;
    }
    ::alarm(0);
    t.write();
    remove_scratch();
    return violation ? 3 : 0;
}

} // namespace vp

int main(int argc, char** argv) { return vp::run_main(argc, argv); }
