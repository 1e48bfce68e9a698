// C02 percent encoding: RFC 3986 encoder, exact inverse, exact status for malformed escapes.
#include "pbt.hpp"
#include <list>
#include "dottorrent/percent_encoding.hpp"

namespace dtd = dottorrent::detail;
const char* const vp::rule = "a case is a byte string to encode and a text to decode, the text mixing well formed escapes (any "
    "letter case), plain bytes, truncated escapes and escapes with a non-hex character; non-trivial: the text contains at least one '%'";

namespace {
bool unreserved(unsigned char c)
{ return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~'; }
int digit(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
std::string ref_encode(std::string_view s)
{
    std::string o;
    for (unsigned char c : s) {
        if (unreserved(c)) o += char(c);
        else { o += '%'; o += "0123456789ABCDEF"[c >> 4]; o += "0123456789ABCDEF"[c & 15]; }
    }
    return o;
}
std::pair<dtd::percent_decode_status, std::string> ref_decode(std::string_view s)
{
    std::string o;
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] != '%') { o += s[i++]; continue; }
        int v = 0;
        for (int k = 1; k <= 2; ++k) {
            if (i + k >= s.size()) return {dtd::percent_decode_status::incomplete_encoded_character, o};
            int d = digit(s[i + k]);
            if (d < 0) return {dtd::percent_decode_status::non_hex_encoded_character, o};
            v = v * 16 + d;
        }
        o += char(v);
        i += 3;
    }
    return {dtd::percent_decode_status::success, o};
}
}

void vp::property(gen& g)
{
    const bool large = g.chance(1, 2000);
    if (large) g.label("long");
    auto raw = large ? g.blob(g.size(200000)) : g.bytes(g.size(40));
    auto want = ref_encode(raw);
    auto enc = dtd::percent_encode(raw);
    VP_EQ(enc, want, << "encoding " << vp::quoted(raw));
    VP_EQ(dtd::percent_decode(enc), raw);
    {
        std::string a, b(want.size(), '?');
        std::list<char> in(raw.begin(), raw.end());
        dtd::percent_encode(in.begin(), in.end(), std::back_inserter(a));
        VP_EQ(a, want);
        dtd::percent_encode(raw.begin(), raw.end(), b.begin());
        VP_EQ(b, want);
    }
    for (unsigned char c : raw) {
        char ch = char(c);
        VP_EQ(dtd::is_unreserved(ch), unreserved(c));
        VP_EQ(dtd::is_numeric(ch), c >= '0' && c <= '9');
        VP_EQ(dtd::is_alpha(ch), (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'));
        VP_EQ(dtd::is_alphanumerical(ch), (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'));
        VP_EQ(dtd::is_reserved_character(ch), c != 0 && std::string_view("!#$&'()*+,/:;=?@[]").find(ch) != std::string_view::npos);
    }

    std::string text;
    auto parts = g.size(large ? 3000 : 12);
    for (std::size_t i = 0; i < parts; ++i) {
        static const std::string hex = "0123456789abcdefABCDEF";
        switch (g.weighted({6, 4, 1, 1, 1})) {
        case 0: text += '%'; text += hex[g.draw(21)]; text += hex[g.draw(21)]; break;
        case 1: { auto k = g.range(1, 3); for (int j = 0; j < int(k); ++j) { char c = char(g.draw(255)); text += c == '%' ? 'x' : c; } break; }
        case 2: text += '%'; break;
        case 3: text += '%'; text += hex[g.draw(21)]; break;
        default: text += '%'; { std::string s2; s2 += hex[g.draw(21)]; s2 += hex[g.draw(21)]; s2[g.draw(1)] = g.chance(50) ? "gGzZ/:@`%"[g.draw(8)] : char(g.draw(255)); text += s2; } break;
        }
    }
    auto [status, out] = ref_decode(text);
    g.nontrivial(text.find('%') != std::string::npos);
    g.label(status == dtd::percent_decode_status::success ? "well formed" : status == dtd::percent_decode_status::incomplete_encoded_character ? "incomplete escape" : "non-hex escape");
    g.note() << "encode " << vp::quoted(raw, 40) << ", decode " << vp::quoted(text, 60) << " status " << int(status);

    std::string got;
    auto st = dtd::percent_decode(text.begin(), text.end(), std::back_inserter(got));
    VP_EQ(int(st), int(status), << "decoding " << vp::quoted(text));
    VP_EQ(got, out, << "decoding " << vp::quoted(text));
    {
        std::list<char> in(text.begin(), text.end());
        std::string got2(text.size() + 1, '?');
        auto st2 = dtd::percent_decode(in.begin(), in.end(), got2.begin());
        VP_EQ(int(st2), int(status));
        VP_EQ(got2.substr(0, out.size()), out);
        VP_EQ(got2.substr(out.size()), std::string(text.size() + 1 - out.size(), '?'));
    }
    if (status == dtd::percent_decode_status::success) {
        VP_EQ(dtd::percent_decode(text), out);
        VP_EQ(dtd::percent_decode(ref_encode(out)), out);
    } else {
        bool refused = false;
        try { (void)dtd::percent_decode(std::string_view(text)); } catch (const std::exception&) { refused = true; }
        VP_REQUIRE(refused, << "no error for " << vp::quoted(text));
    }
}
