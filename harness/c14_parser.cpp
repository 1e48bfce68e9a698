// C14 reading untrusted torrents: a metafile that makes sense or an error, never a crash, hang or escape from the root directory.
#include "torrent_gen.hpp"
#include "dottorrent/metafile_parsing.hpp"

namespace dt = dottorrent;
namespace fs = std::filesystem;
const char* const vp::rule = "a case is a torrent file made from a generated metafile with up to eight damages (keys removed, added or renamed, values replaced by other types, edge numbers, wrong lengths, hostile path components, "
    "swapped parts, cut or flipped bytes) or from random bencode; non-trivial: the bytes are well-formed bencode with an info dictionary and differ from the undamaged torrent, or the damaged torrent is accepted";

namespace {
struct slot { ben::value* v; ben::value* parent; std::string key; std::size_t index; };
void walk(ben::value& v, std::vector<slot>& out, int depth = 0)
{
    if (depth > 60) return;
    if (v.kind == ben::value::list) for (std::size_t i = 0; i < v.l.size(); ++i) { out.push_back({&v.l[i], &v, "", i}); walk(v.l[i], out, depth + 1); }
    if (v.kind == ben::value::dict) for (auto& [k, x] : v.d) { out.push_back({&x, &v, k, 0}); walk(x, out, depth + 1); }
}
const std::vector<std::string>& keys()
{
    static const std::vector<std::string> k = {"info", "name", "length", "files", "path", "piece length", "pieces", "file tree", "piece layers", "meta version", "pieces root", "announce", "announce-list", "private", "attr",
        "symlink path", "nodes", "url-list", "httpseeds", "collections", "similar", "creation date", "comment", "created by", "source", "md5", "sha256", "", "..", ".", "/", "a/b", "cross_seed_entry"};
    return k;
}
void damage(vp::gen& g, ben::value& root)
{
    std::vector<slot> all; walk(root, all);
    if (all.empty()) return;
    // half of the time pick the place by its key, so that rare fields are hit
    slot s = all[g.draw(all.size() - 1)];
    if (g.boolean()) { auto& k = keys()[g.draw(keys().size() - 1)]; std::vector<slot> some; for (auto& x : all) if (x.key == k && x.parent->kind == ben::value::dict) some.push_back(x); if (!some.empty()) s = some[g.draw(some.size() - 1)]; }
    static const std::vector<std::string> hostile = {"..", ".", "", "/", "/etc", "../x", "a/../../b", "a/b", "\\", "..\\x", std::string("a\0b", 3), "...", " ", "~"};
    static const std::vector<std::int64_t> edge = {0, 1, -1, 2, 3, 16384, 16383, 32768, 1 << 20, 65535, 65536, INT64_MAX, INT64_MIN, INT64_MAX - 1, 1LL << 62, 1LL << 32, 4294967295LL, 8192};
    auto& v = *s.v;
    switch (g.weighted({4, 3, 4, 5, 4, 3, 3, 2, 3, 1, 2, 3, 2})) {
    case 0: if (s.parent->kind == ben::value::dict) s.parent->d.erase(s.key); else s.parent->l.erase(s.parent->l.begin() + static_cast<long>(s.index)); break;
    case 1: v = tg::any_value(g); break;
    case 2: v = ben::value(edge[g.draw(edge.size() - 1)]); break;
    case 3:
        if (v.kind == ben::value::integer) v.i = g.boolean() ? edge[g.draw(edge.size() - 1)] : static_cast<std::int64_t>(static_cast<std::uint64_t>(v.i) + g.draw(4) - 2);
        else if (v.kind == ben::value::text) {
            switch (g.draw(5)) {
            case 0: v.s = hostile[g.draw(hostile.size() - 1)]; break;
            case 1: if (!v.s.empty()) v.s.resize(g.draw(v.s.size() - 1)); break;
            case 2: v.s += g.blob(1 + g.draw(40)); break;
            case 3: if (!v.s.empty()) v.s[g.draw(v.s.size() - 1)] ^= static_cast<char>(1u << g.draw(7)); break;
            case 4: v.s = g.pick({"l", "p", "x", "h", "lp", "z", "hx", "pp"}); break;
            default: v.s.clear();
            }
        }
        else if (v.kind == ben::value::list) {
            switch (g.draw(3)) { case 0: v.l.clear(); break; case 1: if (!v.l.empty()) { auto x = v.l[g.draw(v.l.size() - 1)]; v.l.push_back(x); } break; case 2: if (!v.l.empty()) std::reverse(v.l.begin(), v.l.end()); break; default: v.l.insert(v.l.begin() + static_cast<long>(g.draw(v.l.size())), tg::any_value(g)); }
        }
        else { switch (g.draw(2)) { case 0: v.d.clear(); break; case 1: v.d[keys()[g.draw(keys().size() - 1)]] = tg::any_value(g); break; default: v.d[hostile[g.draw(hostile.size() - 1)]] = ben::value::make_dict({{"", ben::value::make_dict({{"length", ben::value(std::int64_t{0})}})}}); } }
        break;
    case 4: if (s.parent->kind == ben::value::dict) { auto x = v; s.parent->d.erase(s.key); s.parent->d[g.boolean() ? keys()[g.draw(keys().size() - 1)] : hostile[g.draw(hostile.size() - 1)]] = x; } break;
    case 5: { auto o = all[g.draw(all.size() - 1)]; ben::value c = *o.v; v = c; break; }
    case 6: if (auto* i = root.find("info"); i && i->kind == ben::value::dict) { auto& info = root.d["info"]; info[keys()[g.draw(keys().size() - 1)]] = g.boolean() ? tg::any_value(g) : ben::value(edge[g.draw(edge.size() - 1)]); } break;
    case 7: { ben::value deep = v; for (auto n = g.size(200); n; --n) { ben::value o; if (g.boolean()) { o.kind = ben::value::list; o.l.push_back(std::move(deep)); } else { o.kind = ben::value::dict; o.d.emplace("a", std::move(deep)); } deep = std::move(o); } v = std::move(deep); break; }
    case 8: v = ben::value(hostile[g.draw(hostile.size() - 1)]); break;
    case 9: root = tg::any_value(g); break;
    case 11: { // a piece layer of another length, also for a file that has none
        std::vector<const slot*> roots; for (auto& x : all) if (x.key == "pieces root" && x.v->kind == ben::value::text) roots.push_back(&x);
        if (roots.empty()) break;
        auto* r = roots[g.draw(roots.size() - 1)]; auto* len = r->parent->find("length");
        std::uint64_t n = g.draw(3); if (auto* i = root.find("info"); i && g.boolean() && len) if (auto* ps = i->find("piece length"); ps && ps->i > 0 && len->i >= 0 && len->i / ps->i < 1000) n = static_cast<std::uint64_t>(len->i / ps->i + (len->i % ps->i != 0));
        if (auto* l = root.find("piece layers"); l && l->kind == ben::value::dict) root.d["piece layers"].d[r->v->s] = ben::value(g.blob(n * 32));
        break;
    }
    case 12: { // the length of a file changed in the list, the tree or both
        auto* i = root.find("info"); if (!i || i->kind != ben::value::dict) break;
        std::vector<const slot*> lengths; for (auto& x : all) if (x.key == "length" && x.v->kind == ben::value::integer) lengths.push_back(&x);
        if (lengths.empty()) break;
        auto old = lengths[g.draw(lengths.size() - 1)]->v->i; auto near = [&](std::uint64_t by) { return static_cast<std::int64_t>(static_cast<std::uint64_t>(old) + by); };
        auto now = g.boolean() ? near(1 + g.draw(2)) : g.boolean() ? near(~std::uint64_t{0}) : static_cast<std::int64_t>(16384 << g.draw(3));
        const bool every = g.boolean();
        for (auto* x : lengths) if (x->v->i == old) { x->v->i = now; if (!every) break; }
        break;
    }
    default: { auto l = ben::value::make_list(); for (auto n = g.draw(3); n; --n) l.l.emplace_back(hostile[g.draw(hostile.size() - 1)]); v = l; }
    }
}

enum class outcome { accepted, refused };
template <typename F> outcome attempt(F read, std::optional<dt::metafile>& m, const char* what)
{
    try { m.emplace(read()); return outcome::accepted; }
    catch (const gsl_lite::fail_fast& e) { vp::fail(std::string(what) + ": a contract of the library is broken: " + e.what()); }
    catch (const vp::failure&) { throw; }
    catch (const std::bad_alloc&) { vp::fail(std::string(what) + ": out of memory"); }
    catch (const std::exception&) { return outcome::refused; }
}

void safe_path(const fs::path& p, const char* what)
{
    VP_REQUIRE(!p.empty() && p.is_relative(), << what << " " << p);
    for (auto& c : p) VP_REQUIRE(c != ".." && c.string().find('/') == std::string::npos, << what << " leads out of the root directory: " << p);
}
void sensible(const dt::metafile& m)
{
    const auto& s = m.storage(); std::uint64_t total = 0;
    VP_REQUIRE(s.piece_size() >= 16384 && (s.piece_size() & (s.piece_size() - 1)) == 0, << "accepted piece size " << s.piece_size());
    for (auto& e : s) {
        safe_path(e.path(), "file");
        VP_REQUIRE(e.file_size() <= static_cast<std::uint64_t>(INT64_MAX) - total, << "total size overflows"); total += e.file_size();
        VP_EQ(e.is_symlink(), e.symlink_path().has_value(), << "symlink without target or target without symlink");
        if (e.is_symlink()) { safe_path(*e.symlink_path(), "symlink target"); VP_EQ(e.file_size(), 0u, << "size of a symlink"); }
        if (e.has_v2_data() && !e.piece_layer().empty()) VP_EQ(e.piece_layer().size(), (e.file_size() + s.piece_size() - 1) / s.piece_size(), << "number of hashes in the piece layer of " << e.path());
        for (auto& [k, c] : e.checksums()) VP_REQUIRE(c != nullptr && c->name() == k, << "checksum " << k);
    }
    VP_EQ(m.total_file_size(), total, << "total size");
    VP_REQUIRE(s.pieces().empty() || s.pieces().size() == s.piece_count(), << s.pieces().size() << " v1 pieces, expected " << s.piece_count());
    std::size_t tier = 0; std::set<std::string> urls; bool first = true;
    for (auto& a : m.trackers()) { VP_REQUIRE(a.tier == tier || (!first && a.tier == tier + 1), << "tracker tiers are not contiguous"); tier = a.tier; first = false; VP_REQUIRE(urls.insert(a.url).second, << "tracker announced twice: " << vp::quoted(a.url)); }
}
// the files of an accepted metafile are those the torrent lists; the two lists of a hybrid torrent agree
struct listed { std::string path; std::uint64_t size; std::string root; bool pad; };
void list_tree(const ben::value& dir, const fs::path& at, std::vector<listed>& out)
{
    for (auto& [k, v] : dir.d) {
        if (!k.empty()) { list_tree(v, at / k, out); continue; }
        auto* r = v.find("pieces root"); auto* a = v.find("attr");
        out.push_back({at.generic_string(), static_cast<std::uint64_t>(v.find("length")->i), r ? r->s : "", a && a->s.find('p') != std::string::npos});
    }
}
void as_listed(const dt::metafile& m, const ben::value& info)
{
    auto* version = info.find("meta version"); auto* pieces = info.find("pieces");
    const bool tree = version && version->i == 2, list = !tree || (pieces && !pieces->s.empty());
    std::vector<listed> want, in_tree;
    if (list) {
        auto add = [&](const ben::value& f, bool single = false) {
            fs::path p; if (auto* l = f.find("path"); l && !single) for (auto& c : l->l) p /= c.s; else p = f.find("name")->s;
            auto* a = f.find("attr");
            want.push_back({p.generic_string(), static_cast<std::uint64_t>(f.find("length")->i), "", a && a->s.find('p') != std::string::npos});
        };
        if (auto* l = info.find("files")) for (auto& f : l->l) add(f); else add(info, true);
    }
    if (tree) list_tree(*info.find("file tree"), {}, in_tree);
    if (tree && list) {
        std::map<std::string, listed> by_path; for (auto& f : in_tree) by_path[f.path] = f;
        for (auto& w : want) {
            if (w.pad) continue;
            auto it = by_path.find(w.path);
            if (it == by_path.end()) { VP_REQUIRE(w.pad || w.size == 0, << "accepted although " << vp::quoted(w.path) << " of the file list is not in the file tree"); continue; }
            VP_EQ(w.size, it->second.size, << "accepted although the file list and the file tree have other sizes for " << vp::quoted(w.path));
            if (w.size) w.root = it->second.root;
        }
        for (auto& f : in_tree) VP_REQUIRE(std::any_of(want.begin(), want.end(), [&](auto& w) { return w.path == f.path; }), << "accepted although " << vp::quoted(f.path) << " of the file tree is not in the file list");
    }
    else if (tree) want = in_tree;
    const auto& s = m.storage();
    VP_EQ(s.file_count(), want.size(), << "number of files");
    for (std::size_t i = 0; i < want.size(); ++i) {
        VP_EQ(vp::quoted(s[i].path().generic_string()), vp::quoted(want[i].path), << "path of file " << i); VP_EQ(s[i].file_size(), want[i].size, << "size of " << want[i].path);
        if (!want[i].pad && tree && want[i].size) VP_REQUIRE(s[i].has_v2_data() && std::string_view(s[i].pieces_root()) == want[i].root, << "pieces root of " << want[i].path);
    }
}
// fields of an accepted metafile are the values in the torrent
void as_written(const dt::metafile& m, const ben::value& root)
{
    auto& info = *root.find("info");
    auto text = [](const ben::value& d, const char* k) { auto* v = d.find(k); VP_REQUIRE(!v || v->kind == ben::value::text, << "accepted although " << k << " is no text"); return v ? v->s : std::string(); };
    auto number = [](const ben::value& d, const char* k) { auto* v = d.find(k); VP_REQUIRE(!v || v->kind == ben::value::integer, << "accepted although " << k << " is no number"); return v ? v->i : 0; };
    VP_EQ(vp::quoted(m.name()), vp::quoted(text(info, "name")), << "name"); VP_EQ(vp::quoted(m.source()), vp::quoted(text(info, "source")), << "source");
    VP_EQ(vp::quoted(m.comment()), vp::quoted(text(root, "comment")), << "comment"); VP_EQ(vp::quoted(m.created_by()), vp::quoted(text(root, "created by")), << "created by");
    VP_EQ(static_cast<std::int64_t>(m.creation_date().count()), number(root, "creation date"), << "creation date");
    VP_EQ(static_cast<std::int64_t>(m.is_private()), number(info, "private"), << "private");
    VP_EQ(static_cast<std::int64_t>(m.piece_size()), number(info, "piece length"), << "piece length");
    std::set<std::string> urls, coll, sim; auto each = [](const ben::value* v, auto f) { if (v) for (auto& x : v->l) f(x); };
    if (auto a = root.find("announce")) urls.insert(a->s);
    each(root.find("announce-list"), [&](auto& t) { each(&t, [&](auto& u) { urls.insert(u.s); }); });
    std::set<std::string> got; for (auto& a : m.trackers()) got.insert(a.url); VP_REQUIRE(got == urls, << got.size() << " trackers, the torrent has " << urls.size());
    for (auto* d : {&info, &root}) { each(d->find("collections"), [&](auto& c) { coll.insert(c.s); }); each(d->find("similar"), [&](auto& c) { sim.insert(c.s); }); }
    VP_REQUIRE((std::set<std::string>(m.collections().begin(), m.collections().end()) == coll), << "collections");
    got.clear(); for (auto& h : m.similar_torrents()) got.insert(h.version() == dt::protocol::v1 ? ref::str(h.v1()) : ref::str(h.v2())); VP_REQUIRE(got == sim, << "similar torrents");
    auto list = [&](const char* k) { std::vector<std::string> l; auto add = [&](auto& u) { if (std::find(l.begin(), l.end(), u.s) == l.end()) l.push_back(u.s); }; auto* v = root.find(k); if (v && v->kind == ben::value::text) { if (!v->s.empty()) add(*v); } else each(v, add); return l; };
    VP_REQUIRE(m.web_seeds() == list("url-list"), << "web seeds"); VP_REQUIRE(m.http_seeds() == list("httpseeds"), << "http seeds");
    std::vector<std::pair<std::string, std::int64_t>> nodes, have; each(root.find("nodes"), [&](auto& n) { std::pair<std::string, std::int64_t> x{n.l.at(0).s, n.l.at(1).i}; if (std::find(nodes.begin(), nodes.end(), x) == nodes.end()) nodes.push_back(x); });
    for (auto& n : m.dht_nodes()) have.emplace_back(n.url, n.port); VP_REQUIRE(have == nodes, << "nodes");
    std::string hashes; for (auto& h : m.storage().pieces()) hashes += ref::str(h); VP_REQUIRE(hashes == text(info, "pieces"), << "piece hashes");
}
// everything the metafile says, in one text
std::string whole(const dt::metafile& m, dt::protocol p)
{
    std::ostringstream o;
    auto q = [&](std::string_view t) { o << vp::quoted(std::string(t), 100000) << ' '; };
    for (auto& t : dt::as_nested_vector(m.trackers())) { o << "tier "; for (auto& u : t) q(u); }
    for (auto& u : m.http_seeds()) { o << "\nhttp "; q(u); } for (auto& u : m.web_seeds()) { o << "\nweb "; q(u); }
    for (auto& n : m.dht_nodes()) { o << "\nnode "; q(n.url); o << n.port; }
    o << "\nname "; q(m.name()); o << "\ncomment "; q(m.comment()); o << "\nby "; q(m.created_by()); o << "\nsource "; q(m.source());
    o << "\ndate " << m.creation_date().count() << " private " << m.is_private();
    for (auto& c : std::set<std::string>(m.collections().begin(), m.collections().end())) { o << "\ncollection "; q(c); }
    std::set<std::string> sim; for (auto& h : m.similar_torrents()) { if (h.version() != dt::protocol::v2) sim.insert(ref::hex(std::string_view(h.v1()))); if (h.version() != dt::protocol::v1) sim.insert(ref::hex(std::string_view(h.v2()))); }
    for (auto& h : sim) o << "\nsimilar " << h;
    for (auto& [k, v] : m.other_info_fields()) { o << "\nother "; q(k); q(bencode::encode(v)); }
    const auto& s = m.storage(); o << "\npiece size " << s.piece_size() << " mode " << static_cast<int>(s.file_mode()) << "\n";
    if (p != dt::protocol::v2) { o << "pieces"; for (auto& h : s.pieces()) o << ' ' << h.hex_string(); }
    std::multimap<std::string, std::string> files; // v2: in the order of the tree
    std::size_t index = 0;
    for (auto& e : s) {
        if (p == dt::protocol::v2 && e.is_padding_file()) continue;
        std::ostringstream f; f << e.file_size() << " attr " << (e.attributes() ? static_cast<int>(*e.attributes()) : -1) << " link " << (e.symlink_path() ? vp::quoted(e.symlink_path()->generic_string(), 10000) : "-");
        for (auto& [k, c] : e.checksums()) f << ' ' << vp::quoted(k) << '=' << c->hex_string();
        if (p != dt::protocol::v1 && e.file_size() && !e.is_padding_file()) { f << " root " << e.pieces_root().hex_string() << " layer"; for (auto& h : e.piece_layer()) f << ' ' << h.hex_string(); }
        auto path = e.path().generic_string();
        files.emplace(p == dt::protocol::v2 ? path : std::to_string(1000000 + index++) + path, f.str());
    }
    for (auto& [k, v] : files) o << "\nfile " << vp::quoted(k, 10000) << ' ' << v;
    return o.str();
}
// what decides how a torrent has to be written again
std::optional<dt::protocol> kind(const dt::metafile& m)
{
    if (m.storage().total_regular_file_size() == 0) return std::nullopt;
    auto p = m.storage().protocol(); if (p == dt::protocol::none) return std::nullopt;
    return p;
}
}

void vp::property(gen& g)
{
    std::string bytes, original; bool structured = true;
    if (g.chance(96)) {
        auto t = tg::generate(g);
        auto root = tg::expected(t, t.protocol);
        original = ben::encode(root);
        auto n = g.weighted({1, 5, 4, 3, 2, 1, 1, 1, 1});
        for (std::size_t k = 0; k < n; ++k) damage(g, root);
        bytes = ben::encode(root);
        g.label(tg::name_of(t.protocol)); g.note() << n << " damages of " << tg::show(t);
        if (g.chance(8)) {
            structured = false; g.label("damaged bytes");
            for (auto k = 1 + g.draw(3); k && !bytes.empty(); --k) switch (g.draw(3)) {
                case 0: bytes.resize(g.draw(bytes.size() - 1)); break;
                case 1: bytes[g.draw(bytes.size() - 1)] ^= static_cast<char>(1u << g.draw(7)); break;
                case 2: bytes.insert(g.draw(bytes.size()), g.pick({"i", "e", "l", "d", "0:", "i-1e", "9999999999:", "i99999999999999999999e", "1:"})); break;
                default: bytes.erase(g.draw(bytes.size() - 1), 1 + g.draw(8));
            }
        }
    }
    else { g.label("random bencode"); bytes = ben::encode(tg::any_value(g)); g.note() << "random bencode"; }
    g.note() << ", " << bytes.size() << " bytes" << (g.replaying() ? ": " + vp::quoted(bytes, 3000) : "");
    auto parsed = ben::decode(bytes);
    bool has_info = parsed && parsed->find("info") && parsed->find("info")->kind == ben::value::dict;

    std::optional<dt::metafile> a, b;
    auto x = attempt([&] { return dt::read_metafile(std::string_view(bytes)); }, a, "read from a buffer");
    std::istringstream is(bytes);
    auto y = attempt([&] { return dt::read_metafile(is); }, b, "read from a stream");
    if (structured) { VP_EQ(x == outcome::accepted, y == outcome::accepted, << "a buffer and a stream with the same bytes are not both accepted or both refused"); }
    g.label(x == outcome::accepted ? "accepted" : "refused");
    if (bytes == original) VP_REQUIRE(x == outcome::accepted, << "a valid torrent was refused");
    if (a) sensible(*a);
    if (a && has_info) if (auto* v = parsed->find("info")->find("meta version")) VP_REQUIRE(v->kind == ben::value::integer && (v->i == 1 || v->i == 2), << "a torrent of an unknown version was accepted");
    if (a && has_info) { as_listed(*a, *parsed->find("info")); as_written(*a, *parsed); }
    if (b) sensible(*b);
    if (a && b && structured) VP_REQUIRE(*a == *b, << "a buffer and a stream with the same bytes give different metafiles");
    if (x == outcome::accepted) if (auto p = kind(*a)) {
        std::string again; std::optional<dt::metafile> c, d;
        VP_REQUIRE(attempt([&] { again = dt::write_metafile(*a, *p); return dt::read_metafile(std::string_view(again)); }, c, "accepted torrent written again") == outcome::accepted, << "an accepted torrent cannot be read after writing it as " << tg::name_of(*p) << ": " << vp::quoted(again, 2000));
        VP_EQ(whole(*c, *p), whole(*a, *p), << "an accepted torrent is another one after writing it as " << tg::name_of(*p) << " and reading it: " << vp::quoted(again, 1500));
        std::string third = dt::write_metafile(*c, *p);
        auto u = ben::decode(again), v = ben::decode(third);
        VP_REQUIRE(u && v, << "written torrent is not canonical bencode: " << vp::quoted(again, 1000));
        tg::normalise(*u); tg::normalise(*v);
        VP_REQUIRE(*u == *v, << "an accepted torrent changes when it is read and written again as " << tg::name_of(*p) << ": " << vp::quoted(again, 1500) << " then " << vp::quoted(third, 1500));
        g.label(std::string("accepted as ") + tg::name_of(*p));
    }
    g.nontrivial((has_info && bytes != original) || (x == outcome::accepted && bytes != original));
}
