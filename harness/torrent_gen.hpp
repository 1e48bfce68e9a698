// Generated metafiles: a plain model, the metafile built from it through the public interface, and the bencoded torrent it stands for.
#pragma once
#include "pbt.hpp"
#include "ben.hpp"
#include "ref_digest.hpp"
#include "dottorrent/metafile.hpp"
#include "dottorrent/info_hash.hpp"
#include "dottorrent/metafile_parsing.hpp"

namespace tg {
namespace dt = dottorrent;
namespace fs = std::filesystem;

struct file {
    std::vector<std::string> path; std::uint64_t size = 0; std::optional<std::string> attr; std::map<std::string, std::string> sums;
    std::vector<std::string> link; std::string root; std::vector<std::string> layer;
    bool has(char c) const { return attr && attr->find(c) != std::string::npos; }
    bool pad() const { return has('p'); }
};
struct torrent {
    dt::protocol protocol = dt::protocol::v1; bool single = false; std::string name; std::uint64_t ps = 16384;
    std::vector<file> files; std::vector<std::string> pieces;
    std::vector<std::vector<std::string>> tiers; std::vector<std::string> http, web; std::vector<std::pair<std::string, int>> nodes;
    std::string comment, by, source; std::uint64_t date = 0; bool priv = false, cross = false;
    std::set<std::string> coll; std::set<std::pair<std::string, std::string>> similar; std::map<std::string, ben::value> other;
    bool v1() const { return protocol != dt::protocol::v2; }
    bool v2() const { return protocol != dt::protocol::v1; }
    std::uint64_t total() const { std::uint64_t n = 0; for (auto& f : files) n += f.size; return n; }
};
inline const char* name_of(dt::protocol p) { return p == dt::protocol::v1 ? "v1" : p == dt::protocol::v2 ? "v2" : "hybrid"; }
inline fs::path to_path(const std::vector<std::string>& c) { fs::path p; for (auto& x : c) p /= x; return p; }

inline bencode::bvalue to_bvalue(const ben::value& v)
{
    switch (v.kind) {
    case ben::value::integer: return bencode::bvalue(v.i);
    case ben::value::text: return bencode::bvalue(v.s);
    case ben::value::list: { bencode::bvalue b(bencode::btype::list); for (auto& x : v.l) get_list(b).push_back(to_bvalue(x)); return b; }
    default: { bencode::bvalue b(bencode::btype::dict); for (auto& [k, x] : v.d) get_dict(b).insert_or_assign(k, to_bvalue(x)); return b; }
    }
}
inline ben::value any_value(vp::gen& g, int depth = 0)
{
    switch (g.weighted({4, 4, depth < 3 ? 2u : 0u, depth < 3 ? 2u : 0u})) {
    case 0: if (g.boolean()) return ben::value(static_cast<std::int64_t>(g.draw(1ULL << 40)));
        return ben::value(static_cast<std::int64_t>(g.pick({0ULL, 1ULL, ~0ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 42ULL}) ^ 0));
    case 1: return ben::value(g.bytes(g.size(12)));
    case 2: { auto v = ben::value::make_list(); for (auto n = g.draw(3); n; --n) v.l.push_back(any_value(g, depth + 1)); return v; }
    default: { auto v = ben::value::make_dict(); for (auto n = g.draw(3); n; --n) v.d[g.bytes(g.size(6))] = any_value(g, depth + 1); return v; }
    }
}

inline std::string component(vp::gen& g)
{
    static const std::vector<std::string> some = {"a", "b", "c.txt", "dir", "a b", "..x", "x..", "...", "\xc3\xa9t\xc3\xa9", "A", "attr", "length", "path", "-", "a-", "a.b", "a/"};
    for (;;) {
        std::string s = g.chance(82) ? some[g.draw(some.size() - 2)] : g.bytes(1 + g.size(12));
        for (auto& c : s) if (c == '/' || c == '\0') c = '_';
        if (s != "." && s != "..") return s;
        g.label("component drawn again");
    }
}

struct options { bool allow_all_empty = true; bool hashes_from_data = false; };

inline torrent generate(vp::gen& g, options o = {})
{
    torrent t;
    t.protocol = g.pick({dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid});
    t.ps = 16384ULL << g.weighted({6, 2, 1});
    if (g.chance(8)) { t.ps = 16384ULL << g.range(9, 16); g.label("large pieces"); }   // 8 MiB to 1 GiB: sizes beyond 32 bits
    t.single = g.chance(25);
    auto sums = [&](file& f) { if (g.chance(25)) for (auto n = 1 + (g.chance(4) ? g.draw(40) : g.draw(2)); n; --n) { auto& a = ref::algorithms()[g.draw(ref::algorithms().size() - 1)]; f.sums[a.name] = g.blob(a.size); } };
    auto size = [&]() -> std::uint64_t {
        switch (g.weighted({3, 5, 6, 3})) {
        case 0: return 0;
        case 1: return 1 + g.draw(200);
        case 2: { auto k = 1 + g.draw(4); auto d = g.draw(2); return k * t.ps + d - 1; }
        default: return g.draw(6 * t.ps);
        }
    };
    auto n = t.single ? 1 : g.size(7) + 1;
    if (!t.single && g.chance(1)) { n = 20 + g.draw(300); g.label("many files"); }
    std::set<std::vector<std::string>> used;
    for (std::size_t k = 0; k < n; ++k) {
        file f;
        f.path.push_back(component(g));
        if (!t.single) for (auto d = g.chance(1) ? g.draw(30) : g.draw(3); d; --d) f.path.push_back(component(g));
        // no file twice, no file that is a directory of another
        bool clash = f.path[0] == ".pad";
        for (auto& u : used) { auto m = std::min(u.size(), f.path.size()); clash |= std::equal(u.begin(), u.begin() + static_cast<long>(m), f.path.begin()); }
        if (clash) continue;
        used.insert(f.path);
        f.size = size();
        if (g.chance(40)) { f.attr.emplace(); if (g.boolean()) *f.attr += 'x'; if (g.boolean()) *f.attr += 'h'; }
        if (g.chance(8)) { f.attr = "l"; f.size = 0; for (auto d = 1 + g.draw(2); d; --d) f.link.push_back(component(g)); }
        if (!t.single && t.v1() && t.protocol == dt::protocol::v1 && g.chance(6)) { f.size = 1 + g.draw(t.ps); f.attr = "p"; f.link.clear(); f.path = {".pad", std::to_string(f.size)}; }
        sums(f);
        t.files.push_back(f);
    }
    if (t.files.empty()) { file f; f.path = {"only"}; f.size = 1 + g.draw(100); t.files.push_back(f); }
    if ((t.protocol == dt::protocol::hybrid || !o.allow_all_empty) && t.total() == 0) { bool done = false; for (auto& f : t.files) if (!f.has('l')) { f.size = 1; done = true; break; } if (!done) { file f; f.path = {"only-data"}; f.size = 1; if (t.single) t.files.clear(); t.files.push_back(f); } }
    if (t.protocol == dt::protocol::hybrid && !t.single) {   // align with padding
        std::vector<file> out; std::uint64_t off = 0;
        for (auto& f : t.files) {
            if (off % t.ps) { file p; p.size = t.ps - off % t.ps; p.path = {".pad", std::to_string(p.size)}; p.attr = "p"; off += p.size; out.push_back(p); }
            off += f.size; out.push_back(f);
        }
        t.files = out;
    }
    t.name = t.single ? t.files[0].path[0] : component(g);
    if (!t.single && t.files.size() == 1 && t.files[0].path.size() == 1 && t.files[0].path[0] == t.name) t.name += "-torrent";
    auto salt = g.draw(1u << 20);
    if (t.v1()) { auto c = (t.total() + t.ps - 1) / t.ps; for (std::uint64_t k = 0; k < c; ++k) t.pieces.push_back(ref::sha1(std::to_string(salt) + "p" + std::to_string(k))); }
    if (t.v2()) for (std::size_t i = 0; i < t.files.size(); ++i) {
        auto& f = t.files[i];
        if (f.size == 0 || f.pad()) continue;
        f.root = ref::sha256(std::to_string(salt) + "r" + std::to_string(i));
        if (f.size > t.ps) for (std::uint64_t k = 0; k < (f.size + t.ps - 1) / t.ps; ++k) f.layer.push_back(ref::sha256(std::to_string(salt) + "l" + std::to_string(i) + "/" + std::to_string(k)));
    }
    const bool lots = g.chance(3);      // long lists and texts
    if (lots) g.label("long lists");
    auto few = [&](std::uint64_t n) { return lots && g.chance(30) ? 4 + g.draw(40) : g.size(n); };
    auto urls = [&](const char* scheme) { return scheme + std::string("://") + (g.chance(90) ? "host" + std::to_string(g.draw(lots ? 999 : 12)) : g.bytes(g.size(12))); };
    std::set<std::string> seen;
    for (auto k = few(4); k; --k) {
        std::vector<std::string> tier;
        for (auto j = 1 + few(3); j; --j) { auto u = urls("udp"); if (seen.insert(u).second) tier.push_back(u); }
        std::sort(tier.begin(), tier.end());   // trackers of a tier have no order, the list keeps them sorted
        if (!tier.empty()) t.tiers.push_back(tier);
    }
    auto strings = [&](std::vector<std::string>& v, const char* s) { if (g.chance(30)) for (auto k = 1 + few(3); k; --k) { auto u = urls(s); if (std::find(v.begin(), v.end(), u) == v.end()) v.push_back(u); } };
    strings(t.http, "http"); strings(t.web, "https");
    if (g.chance(30)) for (auto k = 1 + few(3); k; --k) { std::pair<std::string, int> x{urls("h"), static_cast<int>(g.boolean() ? g.draw(65535) : g.pick({0, 1, 6881, 32768, 65535}))}; if (std::find(t.nodes.begin(), t.nodes.end(), x) == t.nodes.end()) t.nodes.push_back(x); }
    auto text = [&](std::string& s) { if (g.chance(40)) s = lots && g.boolean() ? g.blob(1 + g.draw(5000)) : g.bytes(1 + g.size(20)); };
    text(t.comment); text(t.by); text(t.source);
    if (g.chance(50)) switch (g.weighted({5, 5, 1})) { case 0: t.date = g.draw(2000000000); break; case 1: t.date = g.draw(1ULL << 45); break; default: t.date = 0 - (1 + g.draw(2000000000)); }   // before 1970
    t.priv = g.chance(30); t.cross = g.chance(20);
    if (g.chance(30)) for (auto k = 1 + few(2); k; --k) t.coll.insert(g.bytes(g.size(8)));
    if (g.chance(30)) for (auto k = 1 + few(2); k; --k) { std::pair<std::string, std::string> s; auto w = g.draw(2); if (w != 1) s.first = g.blob(20); if (w != 0) s.second = g.blob(32); t.similar.insert(s); }
    if (g.chance(30)) for (auto k = 1 + few(2); k; --k) t.other["x-" + g.bytes(g.size(5))] = any_value(g);
    return t;
}

inline dt::file_attributes attributes(const std::string& s)
{
    auto a = dt::file_attributes::none;
    for (char c : s) a |= c == 'x' ? dt::file_attributes::executable : c == 'h' ? dt::file_attributes::hidden : c == 'p' ? dt::file_attributes::padding_file : dt::file_attributes::symlink;
    return a;
}
inline dt::file_entry entry(const file& f)
{
    dt::file_entry e(to_path(f.path), f.size, f.attr ? std::optional(attributes(*f.attr)) : std::nullopt, f.has('l') ? std::optional<fs::path>(to_path(f.link)) : std::nullopt);
    for (auto& [k, v] : f.sums) e.add_checksum(dt::make_checksum(k, std::string_view(v)));
    return e;
}
/// root: an existing directory with the name of the torrent to take the name from, or empty to set the name itself
inline dt::metafile build(const torrent& t, const fs::path& root = {})
{
    dt::metafile m;
    auto& s = m.storage();
    if (!root.empty()) s.set_root_directory(root); else if (!t.single) m.set_name(t.name);
    for (auto& f : t.files) s.add_file(entry(f));
    if (!t.files.empty()) s.set_file_mode(t.single ? dt::file_mode::single : dt::file_mode::multi);
    s.set_piece_size(t.ps);
    if (t.v1()) { s.allocate_pieces(); for (std::size_t k = 0; k < t.pieces.size(); ++k) s.set_piece_hash(k, dt::sha1_hash(std::string_view(t.pieces[k]))); }
    if (t.v2()) for (std::size_t i = 0; i < t.files.size(); ++i) if (!t.files[i].root.empty()) {
        s[i].set_pieces_root(dt::sha256_hash(std::string_view(t.files[i].root)));
        std::vector<dt::sha256_hash> l; for (auto& x : t.files[i].layer) l.emplace_back(std::string_view(x));
        if (!l.empty()) s[i].set_piece_layer(l);
    }
    for (std::size_t i = 0; i < t.tiers.size(); ++i) for (auto& u : t.tiers[i]) m.add_tracker(u, i);
    for (auto& u : t.http) m.add_http_seed(u);
    for (auto& u : t.web) m.add_web_seed(u);
    for (auto& [h, p] : t.nodes) m.add_dht_node(h, static_cast<std::uint16_t>(p));
    m.set_comment(t.comment); m.set_created_by(t.by); m.set_source(t.source); m.set_creation_date(static_cast<std::time_t>(t.date));
    m.set_private(t.priv); m.enable_cross_seeding(t.cross);
    for (auto& c : t.coll) m.add_collection(c);
    for (auto& [a, b] : t.similar) m.add_similar_torrent(b.empty() ? dt::info_hash(dt::protocol::v1, a) : a.empty() ? dt::info_hash(dt::protocol::v2, b) : dt::info_hash(std::string_view(a), std::string_view(b)));
    for (auto& [k, v] : t.other) m.other_info_fields().insert_or_assign(k, to_bvalue(v));
    return m;
}

inline std::string attr_text(std::string a) { return a; }
/// "attr" is compared as a set of letters, lists without order are sorted
inline void normalise(ben::value& v)
{
    auto attr = [](ben::value& d) { if (auto it = d.d.find("attr"); it != d.d.end() && it->second.kind == ben::value::text) std::sort(it->second.s.begin(), it->second.s.end()); };
    for (auto k : {"collections", "similar"}) if (auto it = v.d.find(k); it != v.d.end()) { auto& l = it->second.l; std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end()); }
    auto info = v.d.find("info"); if (info == v.d.end()) return;
    attr(info->second);
    if (auto it = info->second.d.find("files"); it != info->second.d.end()) for (auto& f : it->second.l) attr(f);
    if (auto it = info->second.d.find("file tree"); it != info->second.d.end()) {
        std::vector<ben::value*> todo{&it->second};
        while (!todo.empty()) { auto* d = todo.back(); todo.pop_back(); for (auto& [k, x] : d->d) { if (k.empty()) attr(x); else if (x.kind == ben::value::dict) todo.push_back(&x); } }
    }
}
inline ben::value strings(const std::vector<std::string>& v) { auto r = ben::value::make_list(); for (auto& x : v) r.l.emplace_back(x); return r; }
inline ben::value file_dict(const file& f, bool v2, bool with_sums)
{
    auto d = ben::value::make_dict();
    d["length"] = ben::value(static_cast<std::int64_t>(f.size));
    if (f.attr) d["attr"] = *f.attr;
    if (f.has('l')) d["symlink path"] = strings(f.link);
    if (with_sums) for (auto& [k, v] : f.sums) d[k] = v;
    if (v2 && f.size) d["pieces root"] = f.root;
    return d;
}
/// the torrent as BEP 3, 12, 17, 19, 27, 38, 47 and 52 describe it; cross_seed_entry is left out
inline ben::value expected(const torrent& t, dt::protocol p)
{
    auto b = ben::value::make_dict(); bool v1 = p != dt::protocol::v2, v2 = p != dt::protocol::v1;
    if (!t.tiers.empty()) { b["announce"] = t.tiers[0][0]; auto l = ben::value::make_list(); for (auto& x : t.tiers) l.l.push_back(strings(x)); b["announce-list"] = l; }
    if (!t.comment.empty()) b["comment"] = t.comment;
    if (!t.by.empty()) b["created by"] = t.by;
    if (t.date) b["creation date"] = ben::value(static_cast<std::int64_t>(t.date));
    if (!t.coll.empty()) b["collections"] = strings({t.coll.begin(), t.coll.end()});
    if (!t.http.empty()) b["httpseeds"] = strings(t.http);
    if (!t.web.empty()) b["url-list"] = strings(t.web);
    if (!t.similar.empty()) { auto l = ben::value::make_list(); for (auto& [x, y] : t.similar) { if (!x.empty()) l.l.emplace_back(x); if (!y.empty()) l.l.emplace_back(y); } b["similar"] = l; }
    if (!t.nodes.empty()) { auto l = ben::value::make_list(); for (auto& [h, port] : t.nodes) l.l.push_back(ben::value::make_list({ben::value(h), ben::value(std::int64_t{port})})); b["nodes"] = l; }
    auto& info = b["info"]; info.kind = ben::value::dict;
    info["name"] = t.name; info["piece length"] = ben::value(static_cast<std::int64_t>(t.ps));
    if (v1) {
        std::string all; for (auto& x : t.pieces) all += x;
        info["pieces"] = all;
        if (t.single) { auto d = file_dict(t.files[0], false, true); for (auto& [k, v] : d.d) info[k] = v; }
        else if (!t.files.empty()) { auto l = ben::value::make_list(); for (auto& f : t.files) { auto d = file_dict(f, false, true); d["path"] = strings(f.path); l.l.push_back(d); } info["files"] = l; }
    }
    if (v2) {
        info["meta version"] = ben::value(std::int64_t{2});
        auto tree = ben::value::make_dict(); auto layers = ben::value::make_dict();
        for (auto& f : t.files) {
            if (f.pad()) continue;
            auto* d = &tree;
            for (auto& c : f.path) { d = &d->d[c]; d->kind = ben::value::dict; }
            d->d[""] = file_dict(f, true, !v1);
            if (f.size > t.ps) { std::string s; for (auto& x : f.layer) s += x; layers[f.root] = s; }
        }
        info["file tree"] = tree; b["piece layers"] = layers;
    }
    if (t.priv) info["private"] = ben::value(std::int64_t{1});
    if (!t.source.empty()) info["source"] = t.source;
    for (auto& [k, v] : t.other) info[k] = v;
    normalise(b);
    return b;
}
inline std::string show(const torrent& t)
{
    std::ostringstream o;
    o << name_of(t.protocol) << (t.single ? " single" : " multi") << " file, " << t.files.size() << " files, " << t.total() << " bytes, piece size " << t.ps << ", " << t.tiers.size() << " tiers, name " << vp::quoted(t.name);
    for (std::size_t i = 0; i < std::min<std::size_t>(t.files.size(), 4); ++i) { std::string p; for (auto& c : t.files[i].path) p += "/" + c; o << ", " << vp::quoted(p.substr(1)) << ":" << t.files[i].size << (t.files[i].attr ? "(" + *t.files[i].attr + ")" : ""); }
    return o.str();
}

/// a metafile read from a torrent of the given kind has all of the model
inline void same(const dt::metafile& m, const torrent& t, dt::protocol p, const std::string& what)
{
    VP_REQUIRE(dt::as_nested_vector(m.trackers()) == t.tiers, << what << ": trackers");
    VP_REQUIRE(m.http_seeds() == t.http, << what << ": http seeds"); VP_REQUIRE(m.web_seeds() == t.web, << what << ": web seeds");
    std::vector<std::pair<std::string, int>> nodes; for (auto& n : m.dht_nodes()) nodes.emplace_back(n.url, n.port);
    VP_REQUIRE(nodes == t.nodes, << what << ": dht nodes");
    VP_EQ(vp::quoted(m.name()), vp::quoted(t.name), << what << ": name"); VP_EQ(vp::quoted(m.comment()), vp::quoted(t.comment), << what << ": comment");
    VP_EQ(vp::quoted(m.created_by()), vp::quoted(t.by), << what << ": created by"); VP_EQ(vp::quoted(m.source()), vp::quoted(t.source), << what << ": source");
    VP_EQ(m.creation_date().count(), static_cast<long long>(t.date), << what << ": creation date"); VP_EQ(m.is_private(), t.priv, << what << ": private");
    VP_REQUIRE(std::set<std::string>(m.collections().begin(), m.collections().end()) == t.coll, << what << ": collections");
    std::set<std::pair<int, std::string>> sim, want;
    for (auto& h : m.similar_torrents()) { if (h.version() != dt::protocol::v2) sim.insert({1, ref::hex(std::string_view(h.v1()))}); if (h.version() != dt::protocol::v1) sim.insert({2, ref::hex(std::string_view(h.v2()))}); }
    for (auto& [a, b] : t.similar) { if (!a.empty()) want.insert({1, ref::hex(a)}); if (!b.empty()) want.insert({2, ref::hex(b)}); }
    VP_REQUIRE(sim == want, << what << ": similar torrents");
    std::map<std::string, std::string> other, want_other;
    for (auto& [k, v] : m.other_info_fields()) other[k] = bencode::encode(v);
    for (auto& [k, v] : t.other) want_other[k] = ben::encode(v);
    if (t.cross) { VP_REQUIRE(other.contains("cross_seed_entry"), << what << ": cross_seed_entry is gone"); other.erase("cross_seed_entry"); }
    VP_REQUIRE(other == want_other, << what << ": " << other.size() << " other info fields, expected " << want_other.size());

    const auto& s = m.storage();
    std::vector<const file*> files; for (auto& f : t.files) if (p != dt::protocol::v2 || !f.pad()) files.push_back(&f);
    VP_EQ(s.file_count(), files.size(), << what << ": number of files"); VP_EQ(m.piece_size(), t.ps, << what << ": piece size");
    if (!files.empty()) VP_EQ(s.file_mode(), t.single ? dt::file_mode::single : dt::file_mode::multi, << what << ": file mode");
    std::uint64_t total = 0; for (auto* f : files) total += f->size;
    VP_EQ(m.total_file_size(), total, << what << ": total size");
    std::map<std::string, const dt::file_entry*> by_path; for (auto& e : s) by_path[e.path().generic_string()] = &e;
    for (std::size_t i = 0; i < files.size(); ++i) {
        auto& f = *files[i]; auto path = to_path(f.path).generic_string();
        const dt::file_entry* e = p == dt::protocol::v2 ? by_path[path] : &s[i];
        VP_REQUIRE(e != nullptr, << what << ": file " << vp::quoted(path) << " is gone");
        VP_EQ(vp::quoted(e->path().generic_string()), vp::quoted(path), << what << ": file " << i);
        VP_EQ(e->file_size(), f.size, << what << ": size of " << path);
        VP_REQUIRE(e->attributes() == (f.attr ? std::optional(attributes(*f.attr)) : std::nullopt), << what << ": attributes of " << path);
        VP_EQ(e->symlink_path().has_value(), f.has('l'), << what << ": symlink " << path);
        if (f.has('l')) VP_EQ(e->symlink_path()->generic_string(), to_path(f.link).generic_string(), << what << ": target of " << path);
        std::map<std::string, std::string> sums; for (auto& [k, c] : e->checksums()) sums[k] = ref::str(c->value());
        VP_REQUIRE(sums == f.sums, << what << ": " << sums.size() << " checksums of " << path << ", expected " << f.sums.size());
        bool data = p != dt::protocol::v1 && f.size && !f.pad();
        VP_EQ(e->has_v2_data(), data, << what << ": v2 data of " << path);
        if (data) {
            VP_REQUIRE(std::string_view(e->pieces_root()) == f.root, << what << ": pieces root of " << path);
            VP_EQ(e->piece_layer().size(), f.layer.size(), << what << ": piece layer of " << path);
            for (std::size_t k = 0; k < f.layer.size(); ++k) VP_REQUIRE(std::string_view(e->piece_layer()[k]) == f.layer[k], << what << ": piece layer " << k << " of " << path);
        }
    }
    if (p != dt::protocol::v2) { VP_EQ(s.pieces().size(), t.pieces.size(), << what << ": pieces"); for (std::size_t k = 0; k < t.pieces.size(); ++k) VP_REQUIRE(std::string_view(s.pieces()[k]) == t.pieces[k], << what << ": piece " << k); }
    else VP_EQ(s.pieces().size(), std::size_t{0}, << what << ": v1 pieces of a v2 torrent");
    if (m.total_regular_file_size()) VP_EQ(s.protocol(), p, << what << ": protocol");
}
}
