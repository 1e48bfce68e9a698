// C01 hexadecimal codec: exact inverse on all byte strings, strict rejection of everything else.
#include "pbt.hpp"
#include <deque>
#include <list>
#include <vector>
#include "dottorrent/hex.hpp"
#include "dottorrent/hash.hpp"
#include "dottorrent/checksum.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a byte string and a text derived from its hex form by flipping case, truncating, "
    "extending or corrupting characters (any byte value); non-trivial: at least one byte and, for decoding, either a valid "
    "text with a byte >= 0x80 or an invalid text";

namespace {
int digit(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
std::optional<std::vector<std::byte>> ref_decode(std::string_view s)
{
    if (s.size() % 2) return std::nullopt;
    std::vector<std::byte> r;
    for (std::size_t i = 0; i < s.size(); i += 2) {
        int a = digit(s[i]), b = digit(s[i + 1]);
        if (a < 0 || b < 0) return std::nullopt;
        r.push_back(std::byte(a * 16 + b));
    }
    return r;
}
// exactly-sized heap copy so that a read past the end is a sanitizer report
struct exact {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit exact(std::string_view s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
    std::string_view view() const { return {p.get(), n}; }
};
template <std::size_t N> void decode_fixed(std::string_view text, const std::optional<std::vector<std::byte>>& want)
{
    auto got = dt::from_hexadecimal_string<N>(text);
    const bool ok = want && want->size() == N;
    VP_EQ(got.has_value(), ok, << "N=" << N << " text=" << vp::quoted(text));
    if (ok) VP_REQUIRE(std::equal(got->begin(), got->end(), want->begin()), << "N=" << N << " text=" << vp::quoted(text));
}
template <typename H> void decode_hash(std::string_view text, const std::optional<std::vector<std::byte>>& want)
{
    std::optional<H> got;
    try { got = dt::make_hash_from_hex<H>(text); } catch (const std::invalid_argument&) { }
    const bool ok = want && want->size() == H::size_bytes;
    VP_EQ(got.has_value(), ok, << "text=" << vp::quoted(text));
    if (ok) VP_REQUIRE(std::equal(got->begin(), got->end(), want->begin()));
}
}

void vp::property(gen& g)
{
    // sizes of real digests are frequent, so that the fixed-size decoders see exact lengths
    std::size_t n = g.weighted({3, 5}) == 0 ? g.size(80) : g.pick({0, 1, 2, 3, 4, 5, 16, 20, 28, 32, 48, 64});
    const bool large = g.chance(1, 2000);
    if (large) { n = g.size(300000); g.label("long"); }
    std::string raw = large || (g.chance(30) && n) ? g.blob(n) : g.bytes(n);
    std::vector<std::byte> data;
    for (char c : raw) data.push_back(std::byte(static_cast<unsigned char>(c)));

    // encoding
    static const char* digits = "0123456789abcdef";
    std::string want;
    for (auto b : data) { want += digits[int(b) >> 4]; want += digits[int(b) & 15]; }
    auto enc = dt::to_hexadecimal_string(std::span<const std::byte>(data.data(), data.size()));
    VP_EQ(enc, want);
    {
        // the output iterator form, through iterators that do and do not share position
        std::string a, b(want.size(), '?');
        dt::to_hexadecimal_string(std::back_inserter(a), std::span<const std::byte>(data.data(), data.size()));
        VP_EQ(a, want);
        dt::to_hexadecimal_string(b.begin(), std::span<const std::byte>(data.data(), data.size()));
        VP_EQ(b, want);
    }
    // the text to decode: the encoding, then edits
    std::string text = want;
    for (auto& c : text) if (c >= 'a' && g.boolean()) c = char(c - 'a' + 'A');
    auto edits = g.weighted({5, 3, 2});
    for (std::size_t i = 0; i < edits; ++i) {
        switch (g.weighted({4, 3, 3, 2, 2})) {
        case 4: { auto w = g.bytes(1 + g.size(8)); text = g.boolean() ? w + text : text + w; break; }
        case 0: if (!text.empty()) text[g.draw(text.size() - 1)] = char(g.draw(255)); break;
        case 1: if (!text.empty()) text.erase(g.draw(text.size() - 1), 1); break;
        case 2: text.insert(text.begin() + g.draw(text.size()), char(g.chance(70) ? "0123456789abcdefABCDEF"[g.draw(21)] : char(g.draw(255)))); break;
        // near misses of the digit ranges
        default: if (!text.empty()) text[g.draw(text.size() - 1)] = g.pick({'g', 'G', '/', ':', '@', '`', ' ', '+', '-', 'x', '\0'}); break;
        }
    }
    auto ref = ref_decode(text);
    exact ex(text);
    g.note() << "data=" << n << " bytes, decode " << vp::quoted(text, 60) << (ref ? " (valid)" : " (invalid)");
    g.label(ref ? "decode valid" : text.size() % 2 ? "decode odd length" : "decode bad digit");
    bool high = false;
    if (ref) for (auto b : *ref) high |= int(b) >= 0x80;
    if (high) g.label("decode byte >= 0x80");
    g.nontrivial(n > 0 && (!ref || high));

    // decoding to an output iterator: all or an exception
    std::vector<std::byte> out;
    bool threw = false;
    try { dt::from_hexadecimal_string(std::back_inserter(out), ex.view()); }
    catch (const std::system_error&) { threw = true; }
    catch (const std::invalid_argument&) { threw = true; }
    VP_EQ(threw, !ref, << "text=" << vp::quoted(text));
    if (ref) VP_REQUIRE(out == *ref, << "text=" << vp::quoted(text));
    if (ref) {
        std::vector<std::byte> buf(ref->size());
        dt::from_hexadecimal_string(buf.begin(), ex.view());
        VP_REQUIRE(buf == *ref, << "text=" << vp::quoted(text));
    }

    decode_fixed<0>(ex.view(), ref);
    decode_fixed<1>(ex.view(), ref);
    decode_fixed<2>(ex.view(), ref);
    decode_fixed<3>(ex.view(), ref);
    decode_fixed<4>(ex.view(), ref);
    decode_fixed<20>(ex.view(), ref);
    decode_fixed<32>(ex.view(), ref);
    decode_fixed<64>(ex.view(), ref);
    decode_hash<dt::md5_hash>(ex.view(), ref);
    decode_hash<dt::sha1_hash>(ex.view(), ref);
    decode_hash<dt::sha256_hash>(ex.view(), ref);
    decode_hash<dt::sha384_hash>(ex.view(), ref);
    decode_hash<dt::sha512_hash>(ex.view(), ref);
}
