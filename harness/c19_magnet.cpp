// C19 magnet links: encoding against an independent parser, round trip, malformed links, links made from metafiles.
#include "torrent_gen.hpp"
#include <list>
#include "dottorrent/magnet_uri.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a magnet link with any set of fields, built field by field, parsed from a text in any field order and letter case of escapes, or made from a generated metafile; or a damaged link; "
    "non-trivial: at least three fields, of which one needs escaping, or a link made from a metafile with trackers, or a damaged link";

namespace {
struct model {
    std::vector<std::string> topics, trackers, seeds, sources, peers;
    std::string name, exact, manifest;
    std::size_t size = 0;
    std::set<std::string> keywords;
    friend bool operator==(const model&, const model&) = default;
};
std::ostream& operator<<(std::ostream& o, const model& m)
{
    auto l = [&](const char* n, const auto& v) { for (auto& x : v) o << n << "=" << vp::quoted(x) << " "; };
    l("xt", m.topics); l("tr", m.trackers); l("ws", m.seeds); l("as", m.sources); l("x.pe", m.peers); l("kt", m.keywords);
    return o << "dn=" << vp::quoted(m.name) << " xs=" << vp::quoted(m.exact) << " mt=" << vp::quoted(m.manifest) << " xl=" << m.size;
}
model read(const dt::magnet_uri& u)
{
    model m;
    m.topics = u.topics(); m.trackers = u.trackers(); m.seeds = u.web_seeds(); m.sources = u.acceptable_sources(); m.peers = u.peer_adresses();
    m.name = u.display_name(); m.exact = u.exact_source(); m.manifest = u.manifest(); m.size = u.size();
    m.keywords = {u.keywords().begin(), u.keywords().end()};
    return m;
}
int digit(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
/// nullopt: a malformed escape
std::optional<std::string> decode(std::string_view s)
{
    std::string o;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '%') { o += s[i]; continue; }
        if (i + 2 >= s.size() || digit(s[i + 1]) < 0 || digit(s[i + 2]) < 0) return std::nullopt;
        o += static_cast<char>(digit(s[i + 1]) * 16 + digit(s[i + 2]));
        i += 2;
    }
    return o;
}
std::vector<std::string_view> split(std::string_view s, char c)
{
    std::vector<std::string_view> r;
    for (;;) { auto p = s.find(c); r.push_back(s.substr(0, p)); if (p == s.npos) return r; s.remove_prefix(p + 1); }
}
/// an independent parser of the link, strict about everything
model parse(const std::string& uri)
{
    VP_REQUIRE(uri.starts_with("magnet:?"), << uri);
    for (unsigned char c : uri) VP_REQUIRE(c > 32 && c < 127 && !strchr("\"<>\\^`{|}#", c), << "byte " << int(c) << " in a link: " << vp::quoted(uri));
    model m;
    auto rest = std::string_view(uri).substr(8);
    if (rest.empty()) return m;
    std::set<std::string_view> once;
    for (auto part : split(rest, '&')) {
        auto e = part.find('=');
        VP_REQUIRE(e != part.npos, << "a part without '=' in " << uri);
        auto k = part.substr(0, e), v = part.substr(e + 1);
        auto d = decode(v);
        VP_REQUIRE(d, << "a malformed escape in " << uri);
        if (k == "xt") m.topics.push_back(*d);
        else if (k == "tr") m.trackers.push_back(*d);
        else if (k == "ws") m.seeds.push_back(*d);
        else if (k == "as") m.sources.push_back(*d);
        else if (k == "x.pe") m.peers.push_back(*d);
        else if (k == "kt") { for (auto w : split(v, '+')) m.keywords.insert(decode(w).value()); VP_REQUIRE(once.insert(k).second); }
        else {
            VP_REQUIRE(once.insert(k).second, << k << " twice in " << uri);
            if (k == "dn") m.name = *d;
            else if (k == "xs") m.exact = *d;
            else if (k == "mt") m.manifest = *d;
            else if (k == "xl") { VP_REQUIRE(!v.empty() && v.find_first_not_of("0123456789") == v.npos, << uri); m.size = std::stoull(std::string(v)); }
            else vp::fail("unknown field " + std::string(k) + " in " + uri);
        }
    }
    return m;
}
std::string value(vp::gen& g, const char* plain)
{
    switch (g.weighted({4, 2, 2, 1})) {
    case 0: return plain + std::to_string(g.draw(9));
    case 1: return "http://h" + std::to_string(g.draw(9)) + ":80/a b?x=1&y=2+3%41#f";
    case 2: return g.text(1 + g.size(14), "&=+%?#:/ ;abAB09");
    default: return g.chance(3) ? g.blob(1 + g.draw(3000)) : g.bytes(1 + g.size(14));
    }
}
model generate(vp::gen& g)
{
    model m;
    const bool lots = g.chance(3);
    if (lots) g.label("long lists");
    auto few = [&](std::uint64_t n) { return lots && g.boolean() ? 4 + g.draw(60) : g.size(n); };
    auto list = [&](std::vector<std::string>& v, const char* plain, unsigned pct) { if (g.chance(pct)) for (auto n = 1 + few(3); n; --n) v.push_back(value(g, plain)); };
    if (g.chance(80)) for (auto n = 1 + few(2); n; --n) m.topics.push_back(g.chance(70) ? "urn:btih:" + ref::hex(g.blob(20)) : value(g, "urn:sha1:"));
    list(m.trackers, "udp://tracker", 50); list(m.seeds, "https://seed", 40); list(m.sources, "http://source", 30); list(m.peers, "10.0.0.1:688", 30);
    if (g.boolean()) m.name = value(g, "name");
    if (g.chance(30)) m.exact = value(g, "http://exact");
    if (g.chance(30)) m.manifest = value(g, "http://all.rss");
    if (g.boolean()) m.size = g.pick<std::size_t>({1, 9, 10, 4294967295u, 4294967296u, ~std::size_t{0}, g.draw(~std::uint64_t{0} - 1)});
    if (g.chance(40)) for (auto n = 1 + few(4); n; --n) m.keywords.insert(value(g, "key"));
    return m;
}
dt::magnet_uri build(vp::gen& g, const model& m)
{
    dt::magnet_uri u;
    auto copy = [&] { return g.boolean(); };
    for (auto x : m.topics) { if (copy()) u.add_topic(x); else u.add_topic(std::move(x)); }
    for (auto x : m.trackers) { if (copy()) u.add_tracker(std::string_view(x)); else u.add_tracker(std::move(x)); }
    for (auto x : m.seeds) { if (copy()) u.add_web_seed(std::string_view(x)); else u.add_web_seed(std::move(x)); }
    for (auto x : m.sources) { if (copy()) u.add_acceptable_source(std::string_view(x)); else u.add_acceptable_source(std::move(x)); }
    for (auto x : m.peers) { if (copy()) u.add_peer_adress(x); else u.add_peer_address(std::move(x)); }
    for (auto x : m.keywords) { if (copy()) u.add_keyword(std::string_view(x)); else u.add_keyword(std::move(x)); }
    if (!m.name.empty()) u.set_display_name(std::string(m.name));
    if (!m.exact.empty()) u.set_exact_source(m.exact);
    if (!m.manifest.empty()) u.set_manifest(std::string(m.manifest));
    if (m.size) u.set_size(m.size);
    return u;
}
std::string escape(vp::gen& g, std::string_view s, bool keyword)
{
    std::string o;
    for (unsigned char c : s) {
        const bool must = c <= 32 || c >= 127 || strchr("&%#\"<>", c) || (keyword && c == '+');
        if (must || g.chance(10)) { const char* d = g.boolean() ? "0123456789abcdef" : "0123456789ABCDEF"; o += '%'; o += d[c >> 4]; o += d[c & 15]; }
        else o += static_cast<char>(c);
    }
    return o;
}
/// a link for the fields, fields of different names in any order
std::vector<std::string> parts_of(vp::gen& g, const model& m)
{
    std::vector<std::vector<std::string>> groups;
    auto add = [&](const char* k, const std::vector<std::string>& v) { std::vector<std::string> r; for (auto& x : v) r.push_back(std::string(k) + "=" + escape(g, x, false)); if (!r.empty()) groups.push_back(std::move(r)); };
    add("xt", m.topics); add("tr", m.trackers); add("ws", m.seeds); add("as", m.sources); add("x.pe", m.peers);
    if (!m.name.empty()) add("dn", {m.name});
    if (!m.exact.empty()) add("xs", {m.exact});
    if (!m.manifest.empty()) add("mt", {m.manifest});
    if (m.size) groups.push_back({"xl=" + std::to_string(m.size)});
    if (!m.keywords.empty()) {
        std::string k;
        for (auto& x : m.keywords) k += (k.empty() ? "kt=" : "+") + escape(g, x, true);
        groups.push_back({k});
    }
    if (g.chance(20)) {   // a field the library does not know
        static const std::set<std::string> known = {"xt", "tr", "ws", "as", "pe", "dn", "xs", "mt", "xl", "kt"};
        auto k = g.chance(40) ? std::string("so") : g.text(1 + g.size(8), "abcdefghijklmnopqrstuvwxyz.-_XTRD");
        std::string name;
        for (char c : k) if (c != '.') name += static_cast<char>(std::tolower(c)); else if (known.contains(name)) break; else name.clear();
        if (known.contains(name)) k = "so";
        groups.push_back({k + "=" + (k == "so" ? "0-2" : escape(g, value(g, "x"), false))});
    }
    std::vector<std::string> out;
    while (!groups.empty()) {
        auto i = g.draw(groups.size() - 1);
        out.push_back(groups[i].front());
        groups[i].erase(groups[i].begin());
        if (groups[i].empty()) groups.erase(groups.begin() + static_cast<std::ptrdiff_t>(i));
    }
    return out;
}
std::string join(const std::vector<std::string>& v) { std::string o = "magnet:?"; for (std::size_t i = 0; i < v.size(); ++i) o += (i ? "&" : "") + v[i]; return o; }
std::size_t fields(const model& m) { return m.topics.size() + m.trackers.size() + m.seeds.size() + m.sources.size() + m.peers.size() + m.keywords.size() + !m.name.empty() + !m.exact.empty() + !m.manifest.empty() + (m.size != 0); }

void refused(std::string_view uri)
{
    std::unique_ptr<char[]> exact(new char[uri.size()]);   // reading behind the end of the link is an error
    std::memcpy(exact.get(), uri.data(), uri.size());
    model m;
    try { m = read(dt::make_magnet_uri(std::string_view(exact.get(), uri.size()))); } catch (const std::exception&) { return; }
    std::ostringstream o; o << "malformed link accepted: " << vp::quoted(uri) << " as " << m;
    vp::fail(o.str());
}
}

void vp::property(gen& g)
{
    switch (g.weighted({4, 4, 3, 2})) {
    case 0: {   // fields -> link -> fields
        g.label("built and encoded");
        auto m = generate(g);
        g.note() << m;
        auto u = build(g, m);
        VP_EQ(read(u), m, << "fields");
        auto uri = dt::encode_magnet_uri(u);
        VP_EQ(parse(uri), m, << "link " << uri);
        VP_EQ(read(dt::make_magnet_uri(uri)), m, << "read from " << uri);
        std::list<char> other; dt::encode_magnet_uri(u, std::back_inserter(other));
        VP_EQ(std::string(other.begin(), other.end()), uri);
        std::string raw(uri.size(), '?'); dt::encode_magnet_uri(u, raw.data());
        VP_EQ(raw, uri, << "written to a buffer");
        g.nontrivial(fields(m) > 2 && uri.find('%') != uri.npos);
        break;
    }
    case 1: {   // link of another program -> fields
        g.label("link in any field order");
        auto m = generate(g);
        auto uri = join(parts_of(g, m));
        g.note() << uri;
        VP_EQ(parse(dt::encode_magnet_uri(dt::make_magnet_uri(uri))), m, << "written again");
        VP_EQ(read(dt::make_magnet_uri(uri)), m, << "read from " << uri);
        g.nontrivial(fields(m) > 2 && uri.find('%') != uri.npos);
        break;
    }
    case 2: {   // a metafile
        g.label("from a metafile");
        auto t = tg::generate(g, {.allow_all_empty = false});
        auto p = g.pick({dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid});
        g.note() << tg::show(t) << ", link for " << tg::name_of(p);
        auto f = tg::build(t);
        model m;
        auto hybrid = t.protocol == dt::protocol::hybrid;
        if (t.protocol == dt::protocol::v1 || (hybrid && p != dt::protocol::v2)) m.topics.push_back("urn:btih:" + dt::info_hash_v1(f).hex_string());
        if (t.protocol == dt::protocol::v2 || (hybrid && p != dt::protocol::v1)) m.topics.push_back("urn:btmh:1220" + dt::info_hash_v2(f).hex_string());
        m.name = f.name();
        for (auto& x : t.tiers) for (auto& u : x) m.trackers.push_back(u);
        m.seeds = t.web;
        for (auto& [h, port] : t.nodes) m.peers.push_back(h + ":" + std::to_string(port));
        bool all_pad = true;
        for (auto& x : t.files) all_pad = all_pad && (x.pad() || !x.size);
        if (all_pad) throw vp::discard{};
        auto u = p == dt::protocol::v1 && g.boolean() ? dt::make_magnet_uri(f) : dt::make_magnet_uri(f, p);
        auto got = read(u);
        if (got.size == t.total()) got.size = 0;   // the size may be given, but then it has to be right
        VP_EQ(got, m);
        VP_EQ(parse(dt::encode_magnet_uri(u)), read(u));
        g.nontrivial(!t.tiers.empty());
        if (g.chance(10)) {   // nothing was hashed yet
            dt::metafile bare; bare.storage().add_file(dt::file_entry("a", 1 + g.draw(99999))); bare.storage().set_piece_size(16384); bare.set_name("a");
            bool threw = false;
            try { (void)dt::make_magnet_uri(bare, p); } catch (const std::invalid_argument&) { threw = true; }
            VP_REQUIRE(threw, << "a link to a metafile without hashes");
            g.label("metafile without hashes");
        }
        break;
    }
    default: {   // damaged
        g.nontrivial();
        auto m = generate(g);
        auto parts = parts_of(g, m);
        if (parts.empty()) parts.push_back("dn=a");
        switch (g.draw(4)) {
        case 0: g.label("other scheme"); { auto u = join(parts); auto k = g.draw(7); if (g.boolean()) u = u.substr(0, k); else u[k] = g.pick({' ', '%', '!', '\0', '_'}); g.note() << u; refused(u); } break;
        case 1: g.label("malformed escape");
            for (auto first = g.draw(parts.size() - 1), k = std::uint64_t{0}; k < parts.size(); ++k) {
                auto& p = parts[(first + k) % parts.size()];
                static const std::set<std::string> text_fields = {"xt", "tr", "ws", "as", "x.pe", "dn", "xs", "mt", "kt"};
                if (!text_fields.contains(p.substr(0, p.find('=')))) continue;
                switch (g.draw(3)) { case 0: p += '%'; break; case 1: p += "%4"; break; case 2: p.insert(p.find('=') + 1, g.boolean() ? "%g4" : "%4g"); break; default: p.insert(p.find('=') + 1, g.pick({"%%", "% 4", "%\xff" "1", "%+1"})); }
                g.note() << join(parts); refused(join(parts)); return;
            }
            break;
        case 2: g.label("damaged size"); std::erase_if(parts, [](auto& p) { return p.starts_with("xl="); });
            parts.insert(parts.begin() + static_cast<std::ptrdiff_t>(g.draw(parts.size())), std::string("xl=") + g.pick({"", "-1", "+1", " 1", "1 ", "0x10", "1.5", "abc", "18446744073709551616", "99999999999999999999999", "1e3", "12%"}));
            g.note() << join(parts); refused(join(parts)); break;
        case 3: g.label("part without a value"); parts[g.draw(parts.size() - 1)] = g.pick({"dn", "xt", "foo", "tr%3Da"}); g.note() << join(parts); refused(join(parts)); break;
        default: g.label("any bytes"); {   // a link or an error
            auto u = join(parts); for (auto n = 1 + g.size(6); n; --n) { auto i = g.draw(u.size() - 1); u[i] = static_cast<char>(g.draw(255)); }
            g.note() << vp::quoted(u);
            try { auto a = read(dt::make_magnet_uri(u)); VP_EQ(read(dt::make_magnet_uri(u)), a); } catch (const std::exception&) { }
        } }
    } }
}
