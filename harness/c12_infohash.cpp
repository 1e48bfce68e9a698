// C12 info hashes: value semantics, and the hash of a metafile is the hash of the info dictionary in the torrent file.
#include "torrent_gen.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a pair of info hashes built in every way from related bytes, or a generated metafile whose info hashes are compared with the digest of the info dictionary found in the written "
    "bytes, before and after edits inside and outside of it; non-trivial: two different hashes of the same protocol, or a metafile with data and at least one edit";

namespace {
struct val { dt::protocol p; std::string a, b; bool operator==(const val&) const = default; };

dt::info_hash make(vp::gen& g, const val& v)
{
    dt::sha1_hash a; dt::sha256_hash b;
    if (v.p != dt::protocol::v2) a = dt::sha1_hash(std::string_view(v.a));
    if (v.p != dt::protocol::v1) b = dt::sha256_hash(std::string_view(v.b));
    auto up = [&](std::string s) { if (g.boolean()) for (auto& c : s) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c))); return s; };
    auto way = g.draw(2);
    if (v.p == dt::protocol::v1) return way == 0 ? dt::info_hash(a) : way == 1 ? dt::info_hash(dt::protocol::v1, v.a) : dt::info_hash::from_hex(dt::protocol::v1, up(ref::hex(v.a)));
    if (v.p == dt::protocol::v2) return way == 0 ? dt::info_hash(b) : way == 1 ? dt::info_hash(dt::protocol::v2, v.b) : dt::info_hash::from_hex(dt::protocol::v2, up(ref::hex(v.b)));
    return way == 0 ? dt::info_hash(a, b) : way == 1 ? dt::info_hash(std::string_view(v.a), std::string_view(v.b)) : dt::info_hash::from_hex(up(ref::hex(v.a)), up(ref::hex(v.b)));
}
void same(const dt::info_hash& h, const val& v)
{
    VP_EQ(h.version(), v.p, << "version");
    if (v.p != dt::protocol::v2) { VP_REQUIRE(std::string_view(h.v1()) == v.a, << "v1 bytes"); VP_REQUIRE(h.get_binary(dt::protocol::v1) == v.a, << "v1 binary"); VP_EQ(h.get_hex(dt::protocol::v1), ref::hex(v.a)); }
    if (v.p != dt::protocol::v1) {
        VP_REQUIRE(std::string_view(h.v2()) == v.b, << "v2 bytes"); VP_REQUIRE(h.get_binary(dt::protocol::v2) == v.b, << "v2 binary"); VP_EQ(h.get_hex(dt::protocol::v2), ref::hex(v.b));
        VP_REQUIRE(std::string_view(h.truncated_v2()) == v.b.substr(0, 20), << "truncated v2"); VP_REQUIRE(std::string_view(dt::truncate_v2_hash(h.v2())) == v.b.substr(0, 20), << "truncate_v2_hash");
    }
}
val draw(vp::gen& g)
{
    val v; v.p = g.pick({dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid});
    if (v.p != dt::protocol::v2) v.a = g.blob(20);
    if (v.p != dt::protocol::v1) v.b = g.blob(32);
    return v;
}
template <typename F> void refused(F f, const char* what) { bool threw = false; try { (void)f(); } catch (const std::exception& e) { threw = dynamic_cast<const gsl_lite::fail_fast*>(&e) == nullptr; } VP_REQUIRE(threw, << what << " was accepted"); }

void values(vp::gen& g)
{
    val x = draw(g), y = x;
    switch (g.draw(3)) {
    case 0: break;
    case 1: y = draw(g); break;
    case 2: { auto& s = y.b.empty() || (!y.a.empty() && g.boolean()) ? y.a : y.b; s[g.draw(s.size() - 1)] ^= static_cast<char>(1u << g.draw(7)); break; }
    default: { y.p = g.pick({dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid}); if (y.p != dt::protocol::v2) { if (y.a.empty()) y.a = std::string(20, '\0'); } else y.a.clear(); if (y.p != dt::protocol::v1) { if (y.b.empty()) y.b = std::string(32, '\0'); } else y.b.clear(); }
    }
    auto h = make(g, x), k = make(g, y);
    same(h, x); same(k, y);
    bool eq = x == y;
    VP_EQ(h == k, eq, << "equality"); VP_EQ(h != k, !eq);
    auto o = h <=> k, r = k <=> h;
    VP_EQ(o == 0, eq, << "ordering and equality disagree"); VP_REQUIRE((o < 0) == (r > 0) && (o > 0) == (r < 0), << "ordering is not antisymmetric");
    if (eq) VP_EQ(std::hash<dt::info_hash>{}(h), std::hash<dt::info_hash>{}(k), << "equal info hashes have different hash values");
    val z = draw(g); auto l = make(g, z);
    if ((h < k) && (k < l)) VP_REQUIRE(h < l, << "ordering is not transitive");
    dt::info_hash c(h); same(c, x); c = k; same(c, y); same(h, x);
    std::unordered_set<dt::info_hash> set{h, k}; std::set<dt::info_hash> ordered{h, k};
    VP_EQ(set.size(), eq ? 1u : 2u); VP_EQ(ordered.size(), eq ? 1u : 2u); VP_REQUIRE(set.contains(h) && ordered.contains(k));
    // wrong lengths and damaged text
    auto n = g.size(70); auto raw = g.blob(n);
    if (n != 20) { refused([&] { return dt::info_hash(dt::protocol::v1, raw); }, "a v1 hash of another length"); refused([&] { return dt::info_hash(std::string_view(raw), std::string_view(std::string(32, 'a'))); }, "a hybrid hash with a v1 part of another length"); }
    if (n != 32) { refused([&] { return dt::info_hash(dt::protocol::v2, raw); }, "a v2 hash of another length"); refused([&] { return dt::info_hash(std::string_view(std::string(20, 'a')), std::string_view(raw)); }, "a hybrid hash with a v2 part of another length"); }
    auto p = g.boolean() ? dt::protocol::v1 : dt::protocol::v2;
    auto text = ref::hex(g.blob(p == dt::protocol::v1 ? 20 : 32));
    switch (g.draw(2)) { case 0: text.pop_back(); break; case 1: text += "00"; break; default: text[g.draw(text.size() - 1)] = g.pick({'g', ' ', '/', ':', '@', '`', '\xff'}); }
    refused([&] { return dt::info_hash::from_hex(p, text); }, "damaged hexadecimal text");
    if (p == dt::protocol::v1) refused([&] { return dt::info_hash::from_hex(text, std::string(64, '0')); }, "damaged v1 text"); else refused([&] { return dt::info_hash::from_hex(std::string(40, '0'), text); }, "damaged v2 text");
    refused([&] { return dt::info_hash(dt::protocol::hybrid, std::string(20, 'a')); }, "a hybrid hash from one string");
    g.nontrivial(!eq && x.p == y.p);
    g.note() << "info hashes of protocol " << tg::name_of(x.p) << " " << ref::hex(x.a + x.b).substr(0, 24) << " and " << tg::name_of(y.p) << " " << ref::hex(y.a + y.b).substr(0, 24);
}

struct hashes { std::string v1, v2; bool operator==(const hashes&) const = default; };
hashes of_bytes(const std::string& bytes, dt::protocol p)
{
    std::map<std::string, std::pair<std::size_t, std::size_t>> top; std::string err;
    VP_REQUIRE(ben::decode(bytes, &err, &top).has_value() && top.contains("info"), << "written torrent: " << err);
    auto info = std::string_view(bytes).substr(top["info"].first, top["info"].second);
    return {p != dt::protocol::v2 ? ref::sha1(info) : "", p != dt::protocol::v1 ? ref::sha256(info) : ""};
}
hashes of_metafile(const dt::metafile& m, dt::protocol p)
{
    hashes h;
    if (p != dt::protocol::v2) h.v1 = std::string(std::string_view(dt::info_hash_v1(m)));
    if (p != dt::protocol::v1) h.v2 = std::string(std::string_view(dt::info_hash_v2(m)));
    return h;
}

void metafiles(vp::gen& g)
{
    auto t = tg::generate(g, {.allow_all_empty = false});
    std::uint64_t regular = 0; for (auto& f : t.files) if (!f.pad()) regular += f.size;
    if (!regular) { tg::file f; f.path = {"some-data"}; f.size = 1; t.files = {f}; t.single = false; t.protocol = dt::protocol::v1; t.pieces = {ref::sha1("x")}; }
    auto p = t.protocol;
    g.note() << "info hash of " << tg::show(t); g.label(tg::name_of(p));
    auto m = tg::build(t);
    auto check = [&](const char* what) {
        auto got = of_metafile(m, p), want = of_bytes(dt::write_metafile(m, p), p);
        VP_EQ(ref::hex(got.v1), ref::hex(want.v1), << what << ": v1 info hash and sha1 of the info dictionary"); VP_EQ(ref::hex(got.v2), ref::hex(want.v2), << what << ": v2 info hash and sha256 of the info dictionary");
        return got;
    };
    auto first = check("new");
    // reading it back keeps the info hash
    auto r = dt::read_metafile(std::string_view(dt::write_metafile(m, p)));
    VP_REQUIRE(of_metafile(r, p) == first, << "the info hash changes when the torrent is written and read");
    // edits outside of the info dictionary keep it
    auto n = g.draw(3);
    for (std::size_t k = 0; k < n; ++k) switch (g.draw(6)) {
        case 0: m.set_comment("comment " + std::to_string(g.draw(99))); break;
        case 1: m.set_created_by("by " + std::to_string(g.draw(99))); break;
        case 2: m.set_creation_date(static_cast<std::time_t>(1 + g.draw(1u << 30))); break;
        case 3: if (!t.cross) m.add_tracker("http://new" + std::to_string(g.draw(5))); break;
        case 4: m.add_web_seed("http://seed"); m.add_http_seed("http://seed"); break;
        case 5: m.add_dht_node("node", 1); m.add_collection("c"); break;
        default: m.add_similar_torrent(dt::info_hash(dt::protocol::v1, std::string(20, 's'))); break;
    }
    VP_REQUIRE(check("after edits outside of the info dictionary") == first, << "edits outside of the info dictionary change the info hash");
    // an edit inside changes it
    const char* what = nullptr;
    switch (g.draw(6)) {
    case 0: m.set_private(!t.priv); what = "private"; break;
    case 1: m.set_source(t.source + "!"); what = "source"; break;
    case 2: if (!t.single) { m.set_name(t.name + "!"); what = "name"; } break;
    case 3: m.other_info_fields().insert_or_assign("x-new field", bencode::bvalue(7)); what = "new info field"; break;
    case 4: if (!t.pieces.empty()) { auto i = g.draw(t.pieces.size() - 1); auto x = t.pieces[i]; x[g.draw(19)] ^= 1; m.storage().set_piece_hash(i, dt::sha1_hash(std::string_view(x))); what = "piece hash"; } break;
    case 5: for (auto& e : m.storage()) if (e.has_v2_data()) { std::string x(std::string_view(e.pieces_root())); x[g.draw(31)] ^= 1; e.set_pieces_root(dt::sha256_hash(std::string_view(x))); what = "pieces root"; break; } break;
    default: if (t.cross) { m.add_tracker("http://other-tracker"); what = "tracker of a cross seeded torrent"; }
    }
    if (what) { g.label(what); auto h = check(what); VP_REQUIRE((p == dt::protocol::v2 || h.v1 != first.v1) && (p == dt::protocol::v1 || h.v2 != first.v2), << "a change of the " << what << " keeps the info hash"); }
    g.nontrivial(n > 0 || what);
}
}

void vp::property(gen& g)
{
    if (g.chance(70)) { g.label("values"); values(g); } else { g.label("metafiles"); metafiles(g); }
}
