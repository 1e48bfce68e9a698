// C09 tracker lists and metafile editing against a plain model.
#include "pbt.hpp"
#include <unordered_set>
#include "dottorrent/metafile.hpp"
#include "dottorrent/announce_url_list.hpp"
#include "dottorrent/serialization/all.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a history of up to 40 operations on a tracker list and on a metafile with a small pool of URLs, so that duplicates, tier changes and "
    "vanishing tiers are common; non-trivial: at least one tier vanished or one tracker changed tier, and at least three tiers existed at some point";

namespace {
using entry = std::pair<std::size_t, std::string>;     // (tier, url)

struct model {
    std::vector<entry> v;
    bool collapsed = false;
    std::size_t tiers() const { return v.empty() ? 0 : v.back().first + 1; }
    void insert(entry e) { v.insert(std::upper_bound(v.begin(), v.end(), e), std::move(e)); }
    void erase_at(std::size_t i)
    {
        auto t = v[i].first;
        v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
        for (auto& e : v) if (e.first == t) return;
        for (auto& e : v) if (e.first > t) { --e.first; collapsed = true; }
    }
    std::size_t find(const std::string& u) const { for (std::size_t i = 0; i < v.size(); ++i) if (v[i].second == u) return i; return v.size(); }
    std::size_t find(const entry& x) const { for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == x) return i; return v.size(); }
    std::vector<std::vector<std::string>> nested() const
    {
        std::vector<std::vector<std::string>> r(tiers());
        for (auto& e : v) r[e.first].push_back(e.second);
        return r;
    }
};

std::string show(const std::vector<entry>& v) { std::string s; for (auto& e : v) s += std::to_string(e.first) + ":" + vp::quoted(e.second, 20) + " "; return s; }
template <typename L> std::vector<entry> contents(const L& l) { std::vector<entry> r; for (const auto& a : l) r.emplace_back(a.tier, a.url); return r; }

std::string encode_nested(const model& m)
{
    std::string s = "l";
    for (auto& t : m.nested()) { s += "l"; for (auto& u : t) s += std::to_string(u.size()) + ":" + u; s += "e"; }
    return s + "e";
}

void same(const dt::announce_url_list& l, const model& m, const char* what)
{
    auto c = contents(l);
    VP_REQUIRE(c == m.v, << what << ": list is " << show(c) << " expected " << show(m.v));
    VP_EQ(l.size(), m.v.size()); VP_EQ(l.empty(), m.v.empty()); VP_EQ(l.tier_count(), m.tiers());
}

void lookups(const dt::announce_url_list& l, const model& m, const std::vector<std::string>& pool)
{
    for (auto& u : pool) {
        auto i = m.find(u);
        VP_EQ(l.contains(std::string_view(u)), i < m.v.size(), << "contains " << vp::quoted(u));
        VP_EQ(static_cast<std::size_t>(l.find(std::string_view(u)) - l.begin()), i, << "find " << vp::quoted(u));
        for (std::size_t t = 0; t < m.tiers() + 2; ++t) {
            auto j = m.find(entry(t, u));
            VP_EQ(static_cast<std::size_t>(l.find(dt::announce_url(u, t)) - l.begin()), j, << "find " << vp::quoted(u) << " in tier " << t);
            VP_EQ(l.contains(dt::announce_url(u, t)), j < m.v.size(), << "contains " << vp::quoted(u) << " in tier " << t);
        }
    }
    auto n = m.nested();
    for (std::size_t t = 0; t < n.size() + 2; ++t) {
        std::vector<std::string> want = t < n.size() ? n[t] : std::vector<std::string>{}, got;
        auto [b, e] = l.get_tier(t);
        for (auto it = b; it != e; ++it) { VP_EQ(it->tier, t); got.push_back(it->url); }
        VP_REQUIRE(got == want, << "tier " << t << " has " << got.size() << " urls, expected " << want.size());
        VP_EQ(l.tier_size(t), want.size());
        VP_REQUIRE(l.get_tier_begin(t) == b && l.get_tier_end(t) == e, << "tier " << t << " bounds");
    }
    VP_REQUIRE(dt::as_nested_vector(l) == n, << "nested form of " << show(m.v));
    for (std::size_t i = 0; i < m.v.size(); ++i) { VP_EQ(l.at(i).url, m.v[i].second); VP_EQ(l[i].tier, m.v[i].first); }
    if (!m.v.empty()) { VP_EQ(l.front().url, m.v.front().second); VP_EQ(l.back().url, m.v.back().second); }
    bool threw = false;
    try { (void)l.at(m.v.size()); } catch (const std::out_of_range&) { threw = true; }
    VP_REQUIRE(threw, << "at(size) did not throw");
    VP_EQ(vp::quoted(bencode::encode(l), 300), vp::quoted(encode_nested(m), 300), << "bencoded form of " << show(m.v));
}

void list_case(vp::gen& g, const std::vector<std::string>& pool, std::size_t ops, std::size_t& seen_tiers, bool& moved)
{
    dt::announce_url_list l, other; model m;
    auto u = [&] { return g.pick(pool); };
    if (g.chance(40)) {
        auto a = u(), b = u(), c = u(), d = u();
        auto load = [&](std::vector<std::vector<std::string>> t) { std::size_t k = 0; for (auto& x : t) if (!x.empty()) { for (auto& s : x) m.insert({k, s}); ++k; } };
        switch (g.draw(4)) {
        case 0: l = dt::announce_url_list{{a, b}, {c, d}}; load({{a, b}, {c, d}}); break;
        case 1: l = dt::announce_url_list{{a, b, c, d}}; load({{a, b, c, d}}); break;
        case 2: l = dt::announce_url_list{{a}, {b}, {c}, {d}}; load({{a}, {b}, {c}, {d}}); break;
        case 3: l = dt::announce_url_list{{a}, {}, {b, c}, {d}}; load({{a}, {}, {b, c}, {d}}); break;
        default: l = dt::announce_url_list{{}, {c, b, a}}; load({{}, {c, b, a}}); break;
        }
        same(l, m, "construction");
        g.label("built from a list");
    }
    else if (g.chance(1)) {
        auto n = 100 + g.draw(400);
        for (std::size_t i = 0; i < n; ++i) { auto x = "udp://" + std::to_string(i * 13 % n); l.emplace(x, i); m.insert({i, x}); }
        same(l, m, "many tiers");
        g.label("hundreds of tiers");
        ops /= 4;
    }
    for (std::size_t k = 0; k < ops; ++k) {
        auto w = g.weighted({5, 5, 5, 3, 3, 2, 1, 1});
        switch (w) {
        case 0: case 1: case 2: {
            auto url = u(); auto tier = g.draw(m.tiers());
            m.insert({tier, url});
            dt::announce_url a(url, tier);
            auto it = w == 0 ? l.insert(std::as_const(a)) : w == 1 ? l.insert(std::move(a)) : l.emplace(url, tier);
            same(l, m, w == 2 ? "emplace" : "insert");
            VP_REQUIRE(it >= l.begin() && it < l.end(), << "iterator returned by insert is out of range");
            VP_EQ(it->url, url); VP_EQ(it->tier, tier, << "iterator returned by insert of " << vp::quoted(url));
            break;
        }
        case 3: {
            if (m.v.empty()) break;
            auto i = g.draw(m.v.size() - 1);
            auto before = m.tiers(); m.erase_at(i);
            auto it = l.erase(l.begin() + static_cast<std::ptrdiff_t>(i));
            same(l, m, "erase at position");
            VP_EQ(static_cast<std::size_t>(it - l.begin()), i, << "iterator returned by erase");
            moved |= m.tiers() < before;
            break;
        }
        case 4: {
            auto url = u(); auto tier = g.draw(m.tiers());
            auto i = m.find(entry(tier, url));
            if (i < m.v.size()) m.erase_at(i);
            auto it = l.erase(dt::announce_url(url, tier));
            same(l, m, "erase value");
            VP_EQ(static_cast<std::size_t>(it - l.begin()), i, << "iterator returned by erase");
            break;
        }
        case 5: {
            dt::announce_url_list copy(l);
            VP_REQUIRE(copy == l, << "copy differs"); VP_REQUIRE((copy <=> l) == 0, << "copy does not order as equal");
            VP_EQ(std::hash<dt::announce_url_list>{}(copy), std::hash<dt::announce_url_list>{}(l));
            other = copy;
            if (g.boolean() && !m.v.empty()) {
                copy.erase(copy.begin());
                VP_REQUIRE(copy != l, << "lists of different length are equal"); VP_REQUIRE((copy <=> l) != 0);
                same(l, m, "change of a copy");
            }
            l = std::move(other); other = dt::announce_url_list();
            break;
        }
        case 6: l.erase(l.end()); same(l, m, "erase end"); break;
        default: l.clear(); m = model(); same(l, m, "clear"); break;
        }
        seen_tiers = std::max(seen_tiers, m.tiers());
    }
    moved |= m.collapsed;
    lookups(l, m, pool);
    // order: lexicographic on (tier, url)
    if (m.v.size() > 1) {
        auto i = g.draw(m.v.size() - 1), j = g.draw(m.v.size() - 1);
        auto o = l[i] <=> l[j];
        VP_REQUIRE((o < 0) == (m.v[i] < m.v[j]) && (o == 0) == (m.v[i] == m.v[j]) && (l[i] == l[j]) == (m.v[i] == m.v[j]), << "order of " << show(m.v) << i << "," << j);
    }
}

template <typename T> bool add_once(std::vector<T>& v, const T& x) { if (std::find(v.begin(), v.end(), x) != v.end()) return false; v.push_back(x); return true; }
template <typename T> void drop(std::vector<T>& v, const T& x) { auto i = std::find(v.begin(), v.end(), x); if (i != v.end()) v.erase(i); }

void metafile_case(vp::gen& g, const std::vector<std::string>& pool, std::size_t ops, std::size_t& seen_tiers, bool& moved)
{
    dt::metafile f; model t;
    std::vector<std::string> http, web; std::vector<dt::dht_node> nodes; std::set<std::string> coll; std::set<std::pair<int, std::string>> sim;
    std::string name, comment, by, source; bool priv = false, cross = false; long long date = 0;
    auto u = [&] { return g.pick(pool); };
    auto port = [&] { return static_cast<std::uint16_t>(g.chance(70) ? g.pick({0, 1, 80, 65535}) : static_cast<int>(g.draw(65535))); };
    if (g.chance(15)) { // begin with a lot of everything
        auto count = 1 + g.draw(40);
        g.label("long lists");
        for (std::size_t i = 0; i < count; ++i) {
            auto x = pool[i % pool.size()] + (i < pool.size() ? "" : std::to_string(i / pool.size()));
            add_once(http, x); f.add_http_seed(x); add_once(web, x); f.add_web_seed(x);
            add_once(nodes, dt::dht_node(x, static_cast<std::uint16_t>(i))); f.add_dht_node(x, static_cast<std::uint16_t>(i));
            coll.insert(x); f.add_collection(x);
        }
    }
    for (std::size_t k = 0; k < ops; ++k) {
        switch (g.weighted({8, 3, 3, 3, 3, 3, 3, 3, 3, 4, 1})) {
        case 0: {
            auto url = u();
            auto way = g.draw(2);
            auto tier = way == 0 ? t.tiers() : g.draw(t.tiers());
            g.note() << " +" << tier << ":" << url;
            auto i = t.find(url);
            if (i == t.v.size()) t.insert({tier, url});
            else if (t.v[i].first != tier) { auto old = t.v[i]; t.insert({tier, url}); t.erase_at(t.find(old)); moved = true; g.label("tracker changed tier"); }
            if (way == 0) f.add_tracker(url); else if (way == 1) f.add_tracker(url, tier); else f.add_tracker(dt::announce_url(url, tier));
            same(f.trackers(), t, "add_tracker");
            break;
        }
        case 1: {
            auto url = u();
            auto i = t.find(url);
            if (g.boolean()) { if (i < t.v.size()) t.erase_at(i); f.remove_tracker(url); }
            else {
                auto tier = g.draw(t.tiers());
                if (auto j = t.find(entry(tier, url)); j < t.v.size()) t.erase_at(j);
                if (g.boolean()) f.remove_tracker(url, tier); else f.remove_tracker(dt::announce_url(url, tier));
            }
            same(f.trackers(), t, "remove_tracker");
            break;
        }
        case 2: { auto x = u(); add_once(http, x); f.add_http_seed(x); break; }
        case 3: { auto x = u(); add_once(web, x); f.add_web_seed(x); break; }
        case 4: { auto& from = g.boolean() ? http : web; auto x = u(); if (!from.empty() && g.chance(40)) x = from[g.draw(from.size() - 1)]; if (&from == &http) { drop(http, x); f.remove_http_seed(x); } else { drop(web, x); f.remove_web_seed(x); } break; }
        case 5: {
            auto x = u(); auto p = port();
            dt::dht_node n(x, p);
            add_once(nodes, n);
            switch (g.draw(2)) { case 0: f.add_dht_node(x, p); break; case 1: f.add_dht_node(std::as_const(n)); break; default: f.add_dht_node(std::move(n)); }
            break;
        }
        case 6: { auto x = u(); auto p = port(); if (!nodes.empty() && g.chance(40)) { auto& n = nodes[g.draw(nodes.size() - 1)]; x = n.url; p = n.port; } drop(nodes, dt::dht_node(x, p)); f.remove_dht_node(x, p); break; }
        case 7: {
            auto x = u();
            if (g.chance(70)) { coll.insert(x); f.add_collection(x); } else { coll.erase(x); f.remove_collection(x); }
            break;
        }
        case 8: {
            bool v1 = g.boolean(); std::string raw(v1 ? 20 : 32, static_cast<char>('a' + g.draw(g.chance(20) ? 20 : 2)));
            if (g.chance(30)) raw[g.draw(raw.size() - 1)] = static_cast<char>(g.draw(255));
            dt::info_hash h(v1 ? dt::protocol::v1 : dt::protocol::v2, raw);
            if (g.chance(70)) { sim.insert({v1, raw}); f.add_similar_torrent(h); } else { sim.erase({v1, raw}); f.remove_similar_torrent(h); }
            break;
        }
        case 9:
            switch (g.draw(6)) {
            case 0: name = u(); f.set_name(name); break;
            case 1: comment = u(); f.set_comment(comment); break;
            case 2: by = u(); f.set_created_by(by); break;
            case 3: source = u(); f.set_source(source); break;
            case 4: priv = g.boolean(); f.set_private(priv); break;
            case 5: cross = g.boolean(); f.enable_cross_seeding(cross); break;
            default: {
                date = static_cast<long long>(g.pick(std::vector<std::uint64_t>{0, 1, ~0ULL, 0 - std::uint64_t{86400}, 86400, 1600000000, 4102444800, 253402300799ULL, g.draw(1ULL << 34)}));
                if (g.boolean() && date < 9000000000LL) f.set_creation_date(std::chrono::system_clock::time_point(std::chrono::seconds(date)));
                else f.set_creation_date(static_cast<std::time_t>(date));
                break;
            }
            }
            break;
        default:
            switch (g.draw(5)) {
            case 0: t = model(); f.clear_trackers(); break;
            case 1: http.clear(); f.clear_http_seeds(); break;
            case 2: web.clear(); f.clear_web_seeds(); break;
            case 3: nodes.clear(); f.clear_dht_nodes(); break;
            case 4: coll.clear(); f.clear_collections(); break;
            default: sim.clear(); f.clear_similar_torrents(); break;
            }
        }
        seen_tiers = std::max(seen_tiers, t.tiers());
    }
    moved |= t.collapsed;
    auto check = [&](const dt::metafile& m, const char* what) {
        same(m.trackers(), t, what);
        VP_REQUIRE(m.http_seeds() == http, << what << ": http seeds"); VP_REQUIRE(m.web_seeds() == web, << what << ": web seeds");
        VP_REQUIRE(m.dht_nodes() == nodes, << what << ": dht nodes");
        VP_REQUIRE(std::set<std::string>(m.collections().begin(), m.collections().end()) == coll && m.collections().size() == coll.size(), << what << ": collections");
        std::set<std::pair<int, std::string>> s;
        for (auto& h : m.similar_torrents()) s.insert({h.version() == dt::protocol::v1, std::string(h.get_binary(h.version()))});
        VP_REQUIRE(s == sim && m.similar_torrents().size() == sim.size(), << what << ": similar torrents");
        VP_EQ(m.name(), name, << what); VP_EQ(m.comment(), comment, << what); VP_EQ(m.created_by(), by, << what); VP_EQ(m.source(), source, << what);
        VP_EQ(m.is_private(), priv, << what); VP_EQ(m.is_cross_seeding_enabled(), cross, << what); VP_EQ(m.creation_date().count(), date, << what << ": creation date");
    };
    check(f, "after editing");
    dt::metafile copy(f); check(copy, "copy"); VP_REQUIRE(copy == f, << "copy not equal");
    dt::metafile assigned; assigned.add_http_seed("x"); assigned = f; check(assigned, "assignment"); VP_REQUIRE(assigned == f, << "assigned not equal");
    dt::metafile moved_to(std::move(copy)); check(moved_to, "move"); VP_REQUIRE(moved_to == f, << "moved not equal");
    // a change of any one field makes a different metafile and leaves the others alone
    const auto field = g.draw(12);
    switch (field) {
    case 0: assigned.add_collection("a-new-collection"); break;
    case 1: assigned.add_http_seed("a-new-seed"); break;
    case 2: assigned.add_web_seed("a-new-seed"); break;
    case 3: assigned.add_dht_node("a-new-node", 7); break;
    case 4: assigned.add_tracker("a-new-tracker"); break;
    case 5: assigned.add_similar_torrent(dt::info_hash(dt::protocol::v1, std::string(20, '\x7e'))); break;
    case 6: assigned.set_comment(comment + "x"); break;
    case 7: assigned.set_created_by(by + "x"); break;
    case 8: assigned.set_source(source + "x"); break;
    case 9: assigned.set_private(!priv); break;
    case 10: assigned.set_creation_date(static_cast<std::time_t>(date + 1)); break;
    case 11: assigned.storage().add_file(dt::file_entry("a-new-file", 3)); VP_EQ(assigned.total_file_size(), f.total_file_size() + 3); VP_EQ(assigned.total_regular_file_size(), f.total_regular_file_size() + 3); VP_EQ(assigned.piece_count(), assigned.storage().piece_count()); break;
    default: assigned.other_info_fields().insert_or_assign("a-new-key", bencode::bvalue(1)); break;
    }
    VP_REQUIRE(!(assigned == f), << "metafiles that differ in field " << field << " are equal"); check(f, "after changing a copy");
    if (http.empty()) { f.http_seeds().push_back("in place"); VP_REQUIRE(std::as_const(f).http_seeds() == std::vector<std::string>{"in place"}); f.http_seeds().clear(); check(f, "seeds changed in place"); }
    // a metafile equals another one with the same content, wherever it lives
    alignas(dt::metafile) unsigned char raw[sizeof(dt::metafile)];
    std::memset(raw, static_cast<int>(g.draw(255)), sizeof raw);
    auto* blank = new (raw) dt::metafile;
    bool eq = *blank == dt::metafile();
    blank->~metafile();
    VP_REQUIRE(eq, << "two new metafiles are not equal");
}
}

void vp::property(gen& g)
{
    std::vector<std::string> pool;
    auto n = 2 + g.draw(5);
    static const char* const base[] = {"http://a", "http://a/announce", "udp://b:80", "", "http://z", "a", "b", "http://a:80/x?y=%20"};
    for (std::size_t i = 0; i < n; ++i) {
        auto s = g.chance(75) ? std::string(base[g.draw(7)]) : g.chance(80) ? g.text(6, "ab:/\x7f\xc3") : g.bytes(g.size(14));
        if (std::find(pool.begin(), pool.end(), s) == pool.end()) pool.push_back(s);
    }
    auto ops = g.size(40);
    if (g.chance(10)) {
        g.label("many urls");
        auto more = 5 + g.draw(60);
        for (std::size_t i = 0; i < more; ++i) pool.push_back("http://t" + std::to_string(i * 37 % 101) + "/announce");
        ops += g.draw(120);
    }
    std::size_t tiers = 0; bool moved = false;
    if (g.boolean()) { g.label("tracker list"); list_case(g, pool, ops, tiers, moved); }
    else { g.label("metafile"); metafile_case(g, pool, ops, tiers, moved); }
    if (tiers >= 3) g.label("three or more tiers");
    g.nontrivial(tiers >= 3 && moved);
}
