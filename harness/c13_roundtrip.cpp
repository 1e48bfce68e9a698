// C13 torrent files: what is written is the torrent the metafile describes, and reading it back gives the same metafile, by every route.
#include "torrent_gen.hpp"
#include <iterator>
#include "dottorrent/metafile_serialization.hpp"
#include "dottorrent/metafile_parsing.hpp"

namespace dt = dottorrent;
namespace fs = std::filesystem;
const char* const vp::rule = "a case is a metafile with generated files (v1, v2 or hybrid data, padding, symlinks, attributes, checksums), trackers, seeds, nodes, texts, related torrents and unknown info fields, "
    "written in every protocol its data allows and read back by every route; non-trivial: at least two files or a checksum, attribute or unknown field, and some data";

namespace {
using tg::same;
ben::value checked_decode(const std::string& bytes, const std::string& what)
{
    std::string err; auto v = ben::decode(bytes, &err);
    VP_REQUIRE(v.has_value(), << what << " is not canonical bencode: " << err << " in " << vp::quoted(bytes, 300));
    return *v;
}

void compare(const std::string& bytes, const ben::value& want, const tg::torrent& t, const std::string& what)
{
    auto got = checked_decode(bytes, what);
    if (t.cross) {
        auto* x = got.d["info"].find("cross_seed_entry");
        VP_REQUIRE(x && x->s.size() == 32 && x->s.find_first_not_of("0123456789abcdef") == std::string::npos, << what << ": cross_seed_entry");
        got.d["info"].d.erase("cross_seed_entry");
    }
    tg::normalise(got);
    if (got == want) return;
    for (auto& [k, v] : want.d) if (k != "info") { auto* x = got.find(k); VP_REQUIRE(x, << what << ": " << k << " is missing"); VP_REQUIRE(*x == v, << what << ": " << k << " is " << vp::quoted(ben::encode(*x), 300) << " expected " << vp::quoted(ben::encode(v), 300)); }
    for (auto& [k, v] : want.find("info")->d) { auto* x = got.d["info"].find(k); VP_REQUIRE(x, << what << ": info " << vp::quoted(k) << " is missing"); VP_REQUIRE(*x == v, << what << ": info " << vp::quoted(k) << " is " << vp::quoted(ben::encode(*x), 300) << " expected " << vp::quoted(ben::encode(v), 300)); }
    vp::fail(what + ": fields that were never set: " + vp::quoted(ben::encode(got), 600));
}
struct capture { std::ostringstream o; std::streambuf* old; capture() : old(std::cout.rdbuf(o.rdbuf())) { } ~capture() { std::cout.rdbuf(old); } };
}

void vp::property(gen& g)
{
    auto t = tg::generate(g);
    g.note() << tg::show(t);
    g.label(tg::name_of(t.protocol)); if (t.single) g.label("single file");
    fs::path root;
    if (!t.single && t.name.size() < 200 && g.chance(10)) { root = vp::scratch() / t.name; std::error_code ec; fs::create_directories(root, ec); if (ec) root.clear(); else g.label("name taken from the root directory"); }
    auto m = tg::build(t, root);
    if (t.single && g.boolean()) m.set_name(t.name);
    if (!root.empty()) fs::remove_all(root);
    const auto before = m;
    bool rich = false; for (auto& f : t.files) rich |= f.attr || !f.sums.empty();
    g.nontrivial(t.total() && (t.files.size() > 1 || rich || !t.other.empty()));

    std::vector<dt::protocol> kinds{t.protocol};
    if (t.protocol == dt::protocol::hybrid) kinds = {dt::protocol::hybrid, dt::protocol::v1, dt::protocol::v2};
    for (auto p : kinds) {
        std::string what = std::string(tg::name_of(p)) + " written from " + tg::name_of(t.protocol) + " data";
        auto bytes = dt::write_metafile(m, p);
        compare(bytes, tg::expected(t, p), t, what);
        { std::ostringstream os; dt::write_metafile_to(os, m, p); VP_REQUIRE(os.str() == bytes, << what << ": written to a stream"); }
        if (g.chance(30)) { std::string o; dt::write_metafile_to(std::back_inserter(o), m, p); VP_REQUIRE(o == bytes, << what << ": written to an iterator"); }
        auto by_view = dt::read_metafile(std::string_view(bytes));
        same(by_view, t, p, what + ", read from a buffer");
        { std::istringstream is(bytes); auto r = dt::read_metafile(is); same(r, t, p, what + ", read from a stream"); VP_REQUIRE(r == by_view, << what << ": stream and buffer differ"); }
        if (g.chance(30)) { auto r = dt::read_metafile(std::as_bytes(std::span(bytes))); same(r, t, p, what + ", read from bytes"); VP_REQUIRE(r == by_view, << what << ": bytes and buffer differ"); }
        if (g.chance(10)) {
            auto path = vp::scratch() / "x.torrent";
            { std::ofstream junk(path, std::ios::binary); junk << std::string(g.size(4000), 'j'); }
            dt::save_metafile(path, m, p);
            std::ifstream in(path, std::ios::binary); std::string on_disk((std::istreambuf_iterator<char>(in)), {});
            VP_REQUIRE(on_disk == bytes, << what << ": saved file has " << on_disk.size() << " bytes, expected " << bytes.size());
            auto r = dt::load_metafile(path); VP_REQUIRE(r == by_view, << what << ": loaded from a file");
            same(r, t, p, what + ", loaded");
            g.label("file on disk");
        }
        auto again = dt::write_metafile(by_view, p);
        compare(again, tg::expected(t, p), t, what + ", read and written again");
        if (t.coll.size() < 2 && t.similar.size() < 2) VP_REQUIRE(again == bytes || (t.similar.size() && !t.similar.begin()->first.empty() && !t.similar.begin()->second.empty()), << what << ": the bytes change when read and written again");
        if (g.chance(10)) {
            std::string json; std::ostringstream os;
            { capture c; json = dt::serialize_json(m, p); dt::serialize_json_to(os, m, p); VP_REQUIRE(c.o.str().empty(), << "the json text went to standard output"); }
            VP_REQUIRE(!json.empty() && json == os.str(), << "json text of " << what);
            g.label("json");
        }
    }
    VP_REQUIRE(m == before, << "writing changed the metafile");
    if (g.chance(5)) {
        bool threw = false; try { (void)dt::write_metafile(m, dt::protocol::none); } catch (const std::invalid_argument&) { threw = true; }
        VP_REQUIRE(threw, << "a torrent of no protocol was written");
    }
}
