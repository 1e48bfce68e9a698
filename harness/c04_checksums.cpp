// C04 digest values, checksums and algorithm names behave as values keyed by one name/size table.
#include "pbt.hpp"
#include "ref_digest.hpp"
#include "dottorrent/hash.hpp"
#include "dottorrent/checksum.hpp"
#include "dottorrent/hash_function_traits.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is an algorithm (or an unknown key), two byte strings of related content and any length, and the way they are handed to the "
    "library (span, text, hex, enum or name key); non-trivial: the byte strings are not empty and not all zero";

namespace {
using hf = dt::hash_function;
int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
int cmp(const std::string& a, const std::string& b)
{
    auto r = std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end(),
        [](unsigned char x, unsigned char y) { return x <=> y; });
    return sign(r);
}
std::span<const std::byte> bytes(const std::string& s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }

template <typename H> std::optional<H> build(vp::gen& g, const std::string& v)
{
    try {
        switch (g.draw(3)) {
        case 0: return H(std::span<const std::byte>(bytes(v)));
        case 1: return H(std::string_view(v));
        case 2: { std::vector<unsigned char> u(v.begin(), v.end()); return H(std::span<unsigned char>(u)); }
        default: return dt::make_hash_from_hex<H>(ref::hex(v));
        }
    } catch (const std::invalid_argument&) { return std::nullopt; }
}

/// Text that is no hexadecimal form of as many bytes any more.
std::string damaged(vp::gen& g, std::string hex)
{
    switch (g.draw(5)) {
    case 0: if (!hex.empty()) { char c = static_cast<char>(g.draw(255)); while (std::isxdigit(static_cast<unsigned char>(c))) c = g.pick({'g', 'G', ' ', '\0', '/', ':', '@', '`', '\x80', '-'}); hex[g.draw(hex.size() - 1)] = c; break; } [[fallthrough]];
    case 1: hex.push_back(g.text(1, "0123456789abcdefABCDEF")[0]); break;
    case 2: hex.insert(hex.begin(), g.text(1, "0123456789abcdefABCDEF")[0]); break;
    case 3: if (!hex.empty()) { hex.erase(g.draw(hex.size() - 1), 1); break; } [[fallthrough]];
    case 4: hex.insert(g.draw(hex.size()), 1, g.text(1, "0123456789abcdef")[0]); break;
    default: hex.insert(g.pick({std::size_t(0), hex.size()}), g.pick({std::string("0x"), std::string("  "), std::string("\r\n"), std::string("h"), std::string("\0", 1)})); break;
    }
    return hex;
}

template <typename H> void hash_value(vp::gen& g, const ref::algo& a, const std::string& x, const std::string& y)
{
    if (H::algorithm != a.f) return;
    VP_EQ(H::size_bytes, a.size, << a.name);
    VP_EQ(H::size_bits, a.size * 8, << a.name);
    VP_EQ(H::size_hex, a.size * 2, << a.name);
    auto hx = build<H>(g, x), hy = build<H>(g, y);
    // only a value of exactly the digest size is a digest
    VP_EQ(hx.has_value(), x.size() == a.size, << a.name << " from " << x.size() << " bytes");
    VP_EQ(hy.has_value(), y.size() == a.size, << a.name << " from " << y.size() << " bytes");
    if (!hx || !hy) return;
    const H& p = *hx; const H& q = *hy;
    g.label("two digests of one algorithm");
    VP_EQ(ref::str(p), x); VP_EQ(ref::str(q), y);
    VP_EQ(std::string(std::string_view(p)), x);
    VP_EQ(p.hex_string(), ref::hex(x));
    VP_REQUIRE(std::equal(p.begin(), p.end(), bytes(x).begin(), bytes(x).end()));
    VP_REQUIRE(std::equal(p.value().begin(), p.value().end(), bytes(x).begin(), bytes(x).end()));
    auto sp = static_cast<std::span<const std::byte>>(p);
    VP_REQUIRE(sp.size() == a.size && std::equal(sp.begin(), sp.end(), bytes(x).begin()));
    VP_EQ(p == q, x == y);
    VP_EQ(sign(p <=> q), cmp(x, y), << ref::hex(x) << " " << ref::hex(y));
    VP_EQ(p < q, cmp(x, y) < 0);
    if (x == y) VP_EQ(std::hash<H>{}(p), std::hash<H>{}(q));
    H c = p;
    VP_REQUIRE(c == p);
    c = q;
    VP_REQUIRE(c == q && ref::str(p) == x);
    // a digest is also filled and read in place
    H filled {};
    VP_EQ(static_cast<std::size_t>(std::distance(filled.begin(), filled.end())), a.size);
    if (g.boolean()) std::copy(bytes(x).begin(), bytes(x).end(), filled.begin());
    else std::copy(bytes(x).begin(), bytes(x).end(), filled.data());
    VP_REQUIRE(filled == p && ref::str(filled) == x && std::equal(filled.begin(), filled.end(), bytes(x).begin()));
    VP_REQUIRE(H(p.value()) == p);
    VP_EQ(H::size(), a.size);
    H zero {};
    VP_EQ(ref::str(zero), std::string(a.size, '\0'));
    // hex form of this digest reads back, in either case
    auto hexs = ref::hex(x);
    if (g.boolean()) for (auto& ch : hexs) ch = static_cast<char>(std::toupper(ch));
    VP_REQUIRE(dt::make_hash_from_hex<H>(hexs) == p);
    auto bad = damaged(g, hexs);
    bool threw = false;
    try { (void)dt::make_hash_from_hex<H>(std::string_view(bad)); } catch (const std::exception&) { threw = true; }
    VP_REQUIRE(threw, << a.name << " accepted " << vp::quoted(bad));
}
template <typename... H> void hash_values(std::tuple<H...>*, vp::gen& g, const ref::algo& a, const std::string& x, const std::string& y)
{ (hash_value<H>(g, a, x, y), ...); }

std::unique_ptr<dt::checksum> make(vp::gen& g, bool by_name, const std::string& key, hf f, const std::string& v)
{
    auto way = g.draw(2);
    if (by_name) {
        if (way == 0) return dt::make_checksum(std::string_view(key), bytes(v));
        if (way == 1) return dt::make_checksum(std::string_view(key), std::string_view(v));
        return dt::make_checksum_from_hex(std::string_view(key), ref::hex(v));
    }
    if (way == 0) return dt::make_checksum(f, bytes(v));
    if (way == 1) return dt::make_checksum(f, std::string_view(v));
    return dt::make_checksum_from_hex(f, ref::hex(v));
}
}

void vp::property(gen& g)
{
    const auto& as = ref::algorithms();
    const bool generic = g.chance(25);
    const auto& a = as[g.draw(as.size() - 1)];
    std::string key = a.name;
    if (generic) {
        switch (g.weighted({3, 3, 2, 2, 4, 2})) {
        case 5: key = g.bytes(1 + g.size(14)); break;
        case 4: { // one character of a name changed, or one left out
            key = a.name;
            auto i = g.draw(key.size() - 1);
            if (g.chance(30)) key.erase(i, 1);
            else key[i] = g.chance(70) ? g.text(1, "abcdefghijklmnopqrstuvwxyz_0123456789")[0] : static_cast<char>(key[i] ^ (1 << g.draw(7)));
            break;
        }
        case 0: key = g.text(1 + g.draw(8), "abcdefghijklmnopqrstuvwxyz_0123456789"); break;
        case 1: key = a.name; key.insert(g.draw(key.size()), g.text(1, "x_-0A ")); break;
        case 2: key = a.name; key[0] = static_cast<char>(std::toupper(key[0])); break;
        default: key = g.pick({std::string("md2"), std::string(""), std::string("none"), std::string("sha"), std::string("sha3"), std::string("crc32"), std::string("sha3-256"), std::string("blake2b")}); break;
        }
    }
    // ---- names -------------------------------------------------------------------------------
    const ref::algo* named = nullptr;
    for (auto& x : as) if (key == x.name) named = &x;
    VP_EQ(dt::is_hash_function_name(key), named != nullptr, << "key " << quoted(key));
    auto mf = dt::make_hash_function(key);
    VP_EQ(mf.has_value(), named != nullptr, << "key " << quoted(key));
    if (named) {
        VP_REQUIRE(*mf == named->f, << "key " << key << " maps to another function");
        VP_EQ(std::string(dt::to_string(named->f)), key);
        VP_REQUIRE(std::find(dt::supported_hash_functions.begin(), dt::supported_hash_functions.end(), named->f) != dt::supported_hash_functions.end());
    }
    VP_EQ(dt::supported_hash_functions.size(), as.size());
    g.label(named ? "known key" : "unknown key");

    // ---- values ------------------------------------------------------------------------------
    auto len = g.chance(70) ? a.size : g.chance(50) ? a.size + g.draw(2) - 1 : g.size(80);
    std::string x = g.blob(len), y = x;
    switch (g.weighted({3, 4, 2, 1})) {
    case 0: break;
    case 1: if (!y.empty()) { auto i = g.draw(y.size() - 1); y[i] = static_cast<char>(y[i] + g.range(1, 255)); } break;
    case 2: y = g.blob(len); break;
    default: y = g.blob(g.size(80)); break;
    }
    g.note() << "key " << quoted(key) << " x " << ref::hex(x).substr(0, 80) << " y " << ref::hex(y).substr(0, 80);
    g.nontrivial(!x.empty() && x.find_first_not_of('\0') != std::string::npos);
    hash_values(static_cast<dt::hash_types*>(nullptr), g, a, x, y);

    // ---- checksums ---------------------------------------------------------------------------
    const bool by_name = named == nullptr || g.boolean();
    const hf f = named ? named->f : hf::none;
    std::unique_ptr<dt::checksum> cx, cy;
    try { cx = make(g, by_name, key, f, x); } catch (const std::invalid_argument&) { }
    try { cy = make(g, by_name, key, f, y); } catch (const std::invalid_argument&) { }
    VP_EQ(cx != nullptr, !named || x.size() == named->size, << key << " " << x.size() << " bytes");
    VP_EQ(cy != nullptr, !named || y.size() == named->size, << key << " " << y.size() << " bytes");
    if (cx) {
        const dt::checksum& c = *cx;
        VP_EQ(std::string(c.name()), key);
        VP_EQ(c.size(), x.size());
        VP_EQ(ref::hex(ref::str(c.value())), ref::hex(x));
        VP_EQ(ref::hex(ref::str(cx->value())), ref::hex(x));
        VP_EQ(c.hex_string(), ref::hex(x));
        VP_REQUIRE(c.algorithm() == f);
        VP_REQUIRE(c == c);
        if (cy) {
            VP_EQ(c == *cy, x == y);
            auto o = c <=> *cy;
            VP_REQUIRE(o != std::partial_ordering::unordered);
            VP_EQ(o < 0 ? -1 : o > 0 ? 1 : 0, cmp(x, y));
            g.label("two checksums of one key");
        }
        // another algorithm with the same bytes is a different, incomparable checksum
        for (auto& other : as) if (other.name != key && other.size == x.size()) {
            auto o = dt::make_checksum(other.f, bytes(x));
            VP_REQUIRE(!(c == *o), << key << " equals " << other.name);
            VP_REQUIRE((c <=> *o) == std::partial_ordering::unordered);
            VP_REQUIRE(!(*o == c) && *o != c && (*o <=> c) == std::partial_ordering::unordered, << key << " and " << other.name);
        }
        // so is one of another unknown key, whatever its bytes
        {
            std::string k2 = key;
            switch (g.draw(3)) {
            case 0: k2 = g.text(1 + g.draw(8), "abcdefghijklmnopqrstuvwxyz_0123456789"); break;
            case 1: k2 += g.bytes(1); break;
            case 2: if (!k2.empty()) k2.pop_back(); break;
            default: if (!k2.empty()) { auto i = g.draw(k2.size() - 1); k2[i] = static_cast<char>(k2[i] ^ (1 << g.draw(7))); } break;
            }
            bool known = false;
            for (auto& other : as) known = known || other.name == k2;
            if (!known && k2 != key) {
                auto o = dt::make_checksum(std::string_view(k2), bytes(g.chance(70) ? x : y));
                VP_REQUIRE(!(c == *o) && !(*o == c) && c != *o, << key << " equals " << quoted(k2));
                VP_REQUIRE((c <=> *o) == std::partial_ordering::unordered && (*o <=> c) == std::partial_ordering::unordered, << key << " is ordered with " << quoted(k2));
                g.label("two keys, one of them unknown");
            }
        }
        if (!named) {
            dt::generic_checksum gc(key, std::span<const char>(x.data(), x.size()));
            VP_EQ(ref::hex(ref::str(gc.value())), ref::hex(x), << "generic checksum built from characters");
            VP_REQUIRE(gc == c);
            dt::generic_checksum gb(key, bytes(x));
            VP_REQUIRE(gb == c && gb.name() == key && gb.size() == x.size());
            g.label("generic checksum");
        }
    }
    // an empty checksum: all zero for a known algorithm, no bytes for an unknown one
    auto e = by_name ? dt::make_checksum(std::string_view(key)) : dt::make_checksum(f);
    VP_EQ(std::string(e->name()), key);
    VP_EQ(ref::str(e->value()), std::string(named ? named->size : 0, '\0'));
    // it is filled in place
    if (named && x.size() == named->size) {
        auto v = e->value();
        std::copy(bytes(x).begin(), bytes(x).end(), v.begin());
        VP_REQUIRE(*e == *cx && e->hex_string() == ref::hex(x));
    }
    if (g.chance(3)) for (auto bad : {hf::none, hf::md2}) {
        int threw = 0;
        try { dt::make_checksum(bad); } catch (const std::invalid_argument&) { ++threw; }
        try { dt::make_checksum(bad, bytes(x)); } catch (const std::invalid_argument&) { ++threw; }
        try { (void)dt::to_string(bad); } catch (const std::invalid_argument&) { ++threw; }
        VP_EQ(threw, 3);
    }
    // damaged hex is refused
    if (!x.empty()) {
        auto bad = damaged(g, ref::hex(x));
        bool threw = false;
        try { dt::make_checksum_from_hex(std::string_view(key), bad); } catch (const std::exception&) { threw = true; }
        VP_REQUIRE(threw, << "accepted " << quoted(bad));
        if (named) {
            threw = false;
            try { dt::make_checksum_from_hex(named->f, bad); } catch (const std::exception&) { threw = true; }
            VP_REQUIRE(threw, << "accepted " << quoted(bad) << " for the function");
        }
        g.label("damaged hex");
    }
}
