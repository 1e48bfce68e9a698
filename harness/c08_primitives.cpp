// C08 value primitives: flag algebra, file attribute text, size literals, aligned buffers, DHT node values.
#include "pbt.hpp"
#include <list>
#include <vector>
#include "dottorrent/bitmask_operators.hpp"
#include "dottorrent/literals.hpp"
#include "dottorrent/general.hpp"
#include "dottorrent/aligned_allocator.hpp"
#include "dottorrent/data_chunk.hpp"
#include "dottorrent/dht_node.hpp"
#include "dottorrent/error.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a pair of flag values of several enum widths, a file attribute text, a size, a history of operations on buffers from the "
    "aligned allocator, and a pair of DHT nodes; non-trivial: the flag values differ and neither is zero, and the buffers were grown at least once";

namespace dottorrent {
enum class vp_u8 : std::uint8_t { }; enum class vp_i16 : std::int16_t { }; enum class vp_u32 : std::uint32_t { }; enum class vp_u64 : std::uint64_t { };
}
DOTTORRENT_ENABLE_BITMASK_OPERATORS(dottorrent::vp_u8)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(dottorrent::vp_i16)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(dottorrent::vp_u32)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(dottorrent::vp_u64)

namespace {
template <typename E> void algebra(std::uint64_t a, std::uint64_t b)
{
    using T = std::underlying_type_t<E>;
    using U = std::make_unsigned_t<T>;
    const E x = static_cast<E>(static_cast<T>(a)), y = static_cast<E>(static_cast<T>(b));
    auto raw = [](E e) { return static_cast<std::uint64_t>(static_cast<U>(static_cast<T>(e))); };
    const std::uint64_t p = raw(x), q = raw(y), mask = static_cast<U>(~U(0));
    VP_EQ(raw(x | y), (p | q) & mask); VP_EQ(raw(x & y), p & q); VP_EQ(raw(x ^ y), (p ^ q) & mask); VP_EQ(raw(~x), ~p & mask);
    static_assert(std::is_same_v<decltype(x | y), E> && std::is_same_v<decltype(x & y), E> && std::is_same_v<decltype(x ^ y), E> && std::is_same_v<decltype(~x), E>);
    E z = x; E& r1 = (z |= y); VP_EQ(raw(z), (p | q) & mask); VP_REQUIRE(&r1 == &z);
    z = x; E& r2 = (z &= y); VP_EQ(raw(z), p & q); VP_REQUIRE(&r2 == &z);
    z = x; E& r3 = (z ^= y); VP_EQ(raw(z), (p ^ q) & mask); VP_REQUIRE(&r3 == &z);
    VP_EQ(raw(y), q); VP_EQ(raw(x), p);
}

template <std::size_t A, typename T> void aligned(vp::gen& g)
{
    using alloc = dt::aligned_allocator<T, A>;
    alloc a;
    // raw blocks: aligned, disjoint, wholly usable
    std::vector<std::pair<T*, std::size_t>> blocks;
    auto n = 1 + g.draw(5);
    for (std::size_t i = 0; i < n; ++i) {
        auto count = g.weighted({5, 2}) == 0 ? 1 + g.size(300) : g.pick({1u, 15u, 16u, 17u, 63u, 64u, 65u, 4096u});
        T* p = g.boolean() ? a.allocate(count) : a.allocate(count, static_cast<const int*>(nullptr));
        VP_REQUIRE(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % A == 0, << "allocate(" << count << ") alignment " << A << " gave " << static_cast<void*>(p));
        std::memset(static_cast<void*>(p), static_cast<int>(i + 1), count * sizeof(T));
        blocks.push_back({p, count});
    }
    for (std::size_t i = 0; i < n; ++i) {
        auto* b = reinterpret_cast<unsigned char*>(blocks[i].first);
        for (std::size_t k = 0; k < blocks[i].second * sizeof(T); ++k) VP_REQUIRE(b[k] == i + 1, << "blocks overlap");
    }
    for (auto& [p, c] : blocks) a.deallocate(p, c);
    T* none = a.allocate(0);
    a.deallocate(none, 0);
    // sizes that cannot exist are refused, not wrapped around
    const std::size_t limit = ~std::size_t(0) / sizeof(T); // of objects whose size in bytes can be told
    for (std::size_t huge : {limit + 1, limit + (1 + g.draw(1000)), ~std::size_t(0), limit, a.max_size()}) {
        if (huge < limit && huge != a.max_size()) continue; // wrapped around for one-byte types
        if (huge < (std::size_t(1) << 50)) continue;
        bool refused = false;
        try { T* p = a.allocate(huge); a.deallocate(p, huge); } catch (const std::bad_alloc&) { refused = true; } catch (const std::length_error&) { refused = true; }
        VP_REQUIRE(refused, << "allocate(" << huge << ")");
    }
    VP_REQUIRE(a == alloc(a) && !(a != alloc(a)));
    // a vector on top of it behaves like a vector and stays aligned
    std::vector<T, alloc> v; std::vector<T> m;
    auto ops = g.size(20);
    for (std::size_t i = 0; i < ops; ++i) {
        switch (g.draw(6)) {
        case 0: { auto k = g.size(200); v.resize(k); m.resize(k); break; }
        case 1: { T x = static_cast<T>(g.draw(255)); v.push_back(x); m.push_back(x); break; }
        case 2: { auto k = g.draw(300); v.reserve(k); m.reserve(k); break; }
        case 3: v.shrink_to_fit(); break;
        case 4: { std::vector<T, alloc> w(v); VP_REQUIRE(w == v); v.swap(w); break; }
        case 5: { std::vector<T, alloc> w(std::move(v)); v = {}; v = std::move(w); break; }
        default: { auto k = g.size(100); v.assign(k, static_cast<T>(k)); m.assign(k, static_cast<T>(k)); break; }
        }
        VP_REQUIRE(std::equal(v.begin(), v.end(), m.begin(), m.end()), << "contents differ");
        if (v.data()) VP_REQUIRE(reinterpret_cast<std::uintptr_t>(v.data()) % A == 0, << "vector data not aligned to " << A);
    }
    typename alloc::template rebind<double>::other rb(a);
    double* d = rb.allocate(3); d[2] = 1.5; VP_REQUIRE(reinterpret_cast<std::uintptr_t>(d) % A == 0); rb.deallocate(d, 3);
    if (ops > 2) g.nontrivial();
}
}

void vp::property(gen& g)
{
    const std::uint64_t a = g.draw(~0ULL), b = g.boolean() ? g.draw(~0ULL) : a ^ (1ULL << g.draw(63));
    algebra<dt::vp_u8>(a, b); algebra<dt::vp_i16>(a, b); algebra<dt::vp_u32>(a, b); algebra<dt::vp_u64>(a, b);
    // protocol flags: hybrid is v1 and v2
    {
        auto p = static_cast<dt::protocol>(a % 4), q = static_cast<dt::protocol>(b % 4);
        VP_EQ(static_cast<unsigned>(p | q), static_cast<unsigned>((a % 4) | (b % 4)));
        VP_EQ(static_cast<unsigned>(p & q), static_cast<unsigned>((a % 4) & (b % 4)));
        VP_REQUIRE((dt::protocol::v1 | dt::protocol::v2) == dt::protocol::hybrid);
        VP_REQUIRE((dt::protocol::v1 & dt::protocol::v2) == dt::protocol::none);
        VP_REQUIRE((dt::file_options::copy_symlinks & dt::file_options::add_attributes) != dt::file_options::none);
    }
    // ---- file attribute text (BEP 47) ---------------------------------------------------------
    {
        static const std::pair<char, dt::file_attributes> table[] = {{'l', dt::file_attributes::symlink}, {'x', dt::file_attributes::executable},
            {'h', dt::file_attributes::hidden}, {'p', dt::file_attributes::padding_file}};
        auto n = g.draw(6);
        std::string text = g.chance(70) ? g.text(n, "lxhp") : g.text(n, std::string_view("lxhpLXHP qz-\0\xff", 15));
        auto want = dt::file_attributes::none; bool valid = true;
        for (char c : text) {
            bool known = false;
            for (auto& [ch, f] : table) if (ch == c) { want = static_cast<dt::file_attributes>(static_cast<int>(want) | static_cast<int>(f)); known = true; }
            valid = valid && known;
        }
        std::optional<dt::file_attributes> got;
        try { got = dt::make_file_attributes(text); } catch (const std::invalid_argument&) { }
        VP_EQ(got.has_value(), valid, << quoted(text));
        if (valid) {
            VP_REQUIRE(*got == want, << quoted(text));
            auto back = dt::to_string(want);
            for (auto& [ch, f] : table)
                VP_EQ(std::count(back.begin(), back.end(), ch), (static_cast<int>(want) & static_cast<int>(f)) ? 1 : 0, << "attribute " << ch << " in " << quoted(back));
            VP_REQUIRE(dt::make_file_attributes(back) == want);
        }
        g.label(valid ? "valid attributes" : "invalid attributes");
    }
    // ---- size literals ------------------------------------------------------------------------
    {
        namespace L = dt::literals;
        unsigned long long v = g.size(1000000);
        VP_EQ(L::operator""_KiB(v), v << 10); VP_EQ(L::operator""_MiB(v), v << 20); VP_EQ(L::operator""_GiB(v), v << 30); VP_EQ(L::operator""_TiB(v), v << 40);
        VP_EQ(L::operator""_KB(v), v * 1000ull); VP_EQ(L::operator""_MB(v), v * 1000000ull); VP_EQ(L::operator""_GB(v), v * 1000000000ull);
        VP_EQ(L::operator""_TB(v), v * 1000000000000ull); VP_EQ(L::operator""_bits(v), v / 8);
    }
    // ---- aligned buffers ----------------------------------------------------------------------
    switch (g.draw(4)) {
    case 0: aligned<64, unsigned char>(g); break;
    case 1: aligned<16, int>(g); break;
    case 2: aligned<32, std::uint16_t>(g); break;
    case 3: aligned<128, double>(g); break;
    default: {
        dt::data_chunk::data_type d(g.size(5000));
        if (!d.empty()) VP_REQUIRE(reinterpret_cast<std::uintptr_t>(d.data()) % 64 == 0, << "chunk buffers are aligned for 512 bit instructions");
        for (auto x : d) VP_REQUIRE(x == std::byte(0));
        aligned<64, std::uint64_t>(g);
    }
    }
    // ---- DHT nodes ----------------------------------------------------------------------------
    {
        auto host = [&] { if (g.chance(90)) return g.text(g.size(6), "ab.1:[]\xff"); auto s = g.bytes(g.size(12)); for (auto& c : s) if (c <= 0) c = '_'; return s; };
        std::string u1 = host(), u2 = g.boolean() ? u1 : host();
        auto p1 = static_cast<std::uint16_t>(g.boolean() ? g.draw(3) : g.draw(65535)), p2 = static_cast<std::uint16_t>(g.boolean() ? p1 : g.draw(65535));
        const dt::dht_node x(u1, p1), y(u2, p2);
        VP_EQ(x.url, u1); VP_EQ(x.port, p1);
        VP_EQ(x == y, u1 == u2 && p1 == p2);
        auto want = std::pair(u1, p1) <=> std::pair(u2, p2);
        VP_REQUIRE((x <=> y) == want, << quoted(u1) << ":" << p1 << " " << quoted(u2) << ":" << p2);
        if (u1.find('\xff') == std::string::npos) VP_EQ(static_cast<std::string>(x), u1 + ":" + std::to_string(p1));
        VP_EQ(dt::get<0>(x), u1); VP_EQ(dt::get<1>(x), p1);
        dt::dht_node c = y; c = x; VP_REQUIRE(c == x);
        dt::dht_node mv = std::move(c); VP_REQUIRE(mv == x);
        dt::parse_error e("key" + u1, "what");
        if (u1.find('\xff') == std::string::npos) VP_REQUIRE(std::string_view(e.what()).find("key" + u1) != std::string_view::npos && std::string_view(e.what()).find("what") != std::string_view::npos);
    }
    g.note() << "flags " << std::hex << a << " " << b << std::dec;

}
