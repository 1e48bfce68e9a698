// C21 torrents of other programs: every permitted way to write a torrent down is read as the same torrent, and editing it keeps its info hash.
#include "torrent_gen.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a generated torrent written down in a form this library does not write itself (trackers given by announce, a list, both, with empty tiers or duplicates; related torrents and collections inside, outside or on both sides of the info dictionary; "
    "web seed as text; attribute letters in any order; unknown keys; empty and zero values), read, edited and written again; non-trivial: at least two such forms were used and the torrent has data";

namespace {
using ben::value;
std::vector<value> shuffled(vp::gen& g, std::vector<value> v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.draw(i - 1)]); return v; }
std::string shuffled(vp::gen& g, std::string v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.draw(i - 1)]); return v; }
template <typename F> void each_file(value& info, F f)
{
    if (auto it = info.d.find("files"); it != info.d.end()) { for (auto& x : it->second.l) f(x); }
    else if (info.d.contains("length")) f(info);
    if (auto it = info.d.find("file tree"); it != info.d.end()) {
        std::vector<value*> todo{&it->second};
        while (!todo.empty()) { auto* d = todo.back(); todo.pop_back(); for (auto& [k, x] : d->d) { if (k.empty()) f(x); else todo.push_back(&x); } }
    }
}
value hashes(const std::set<std::pair<std::string, std::string>>& s) { auto l = value::make_list(); for (auto& [x, y] : s) { if (!x.empty()) l.l.emplace_back(x); if (!y.empty()) l.l.emplace_back(y); } return l; }
}

void vp::property(gen& g)
{
    auto t = tg::generate(g);
    t.cross = false;
    auto root = tg::expected(t, t.protocol);
    auto& info = root.d["info"];
    unsigned forms = 0; bool same_info = true;
    auto used = [&](const char* what) { ++forms; g.label(what); g.note() << what << "; "; };
    auto url = [&] { return "udp://other" + std::to_string(g.draw(5)); };

    // ---- trackers ----
    if (g.chance(60)) {
        auto list = value::make_list(); std::vector<std::vector<std::string>> tiers; std::set<std::string> seen;
        const auto form = g.draw(3);   // nothing, announce, announce-list, both
        root.d.erase("announce"); root.d.erase("announce-list");
        if (form & 2) {
            for (auto n = g.size(5); n; --n) {
                auto l = value::make_list(); std::vector<std::string> tier;
                for (auto k = g.draw(3); k; --k) { auto u = url(); l.l.emplace_back(u); if (seen.insert(u).second) tier.push_back(u); }
                list.l.push_back(l);
                std::sort(tier.begin(), tier.end());
                if (!tier.empty()) tiers.push_back(tier);
            }
            root["announce-list"] = list;
        }
        if (form & 1) { auto u = url(); root["announce"] = u; if (seen.insert(u).second) tiers.insert(tiers.begin(), {u}); }
        t.tiers = tiers;
        used(form == 0 ? "no tracker" : form == 1 ? "announce alone" : form == 2 ? "announce-list alone" : "announce and announce-list");
    }
    // ---- related torrents and collections ----
    for (int what = 0; what < 2; ++what) if (g.chance(40)) {
        const char* key = what ? "similar" : "collections";
        auto place = [&](bool inside, const value& v) { if (inside) { info[key] = v; t.other[key] = v; } else root[key] = v; };
        root.d.erase(key);
        bool inside = g.boolean(), outside = !inside || g.boolean();
        std::set<std::string> coll; std::set<std::pair<std::string, std::string>> sim;
        for (bool in : {true, false}) if (in ? inside : outside) {
            auto l = value::make_list();
            for (auto n = g.draw(3); n; --n) {
                if (what) { bool v2 = g.boolean(); auto h = std::string(v2 ? 32 : 20, static_cast<char>('a' + g.draw(3))); l.l.emplace_back(h); sim.insert(v2 ? std::pair(std::string(), h) : std::pair(h, std::string())); }
                else { auto c = "c" + std::to_string(g.draw(3)); l.l.emplace_back(c); coll.insert(c); }
            }
            place(in, l);
        }
        if (what) t.similar = sim; else t.coll = coll;
        used(inside && outside ? "hints on both sides of the info dictionary" : inside ? "hints in the info dictionary" : "hints outside of the info dictionary");
    }
    // ---- web seed as text ----
    if (g.chance(20)) { t.web.clear(); if (g.chance(70)) t.web.push_back(url()); root["url-list"] = t.web.empty() ? "" : t.web[0]; used("web seed as text"); }
    // ---- empty and zero values that mean the same as none ----
    if (g.chance(30)) {
        for (auto k : {"url-list", "httpseeds", "nodes", "announce-list", "collections", "similar"}) if (!root.find(k) && g.boolean()) root[k] = value::make_list();
        for (auto k : {"comment", "created by"}) if (!root.find(k) && g.boolean()) root[k] = "";
        if (!root.find("creation date") && g.boolean()) root["creation date"] = value(std::int64_t{0});
        if (!info.find("private") && g.boolean()) { info["private"] = value(std::int64_t{0}); same_info = false; }
        if (!info.find("source") && g.boolean()) { info["source"] = ""; same_info = false; }
        used("empty values");
    }
    // ---- attribute letters ----
    if (g.chance(30)) {
        bool any = false;
        each_file(info, [&](value& f) { if (auto it = f.d.find("attr"); it != f.d.end() && !it->second.s.empty()) { any = true; auto a = it->second.s; if (g.boolean()) a += a[0]; it->second.s = shuffled(g, a); } });
        if (any) { used("attribute letters"); same_info = false; }
    }
    // the order of letters is not kept
    each_file(info, [&](value& f) { if (auto it = f.d.find("attr"); it != f.d.end() && it->second.s.size() > 1) same_info = false; });
    // ---- keys of other programs ----
    auto other_key = [&](std::string some) {
        static const std::set<std::string> meant = {"announce", "announce-list", "announce list", "comment", "created by", "creation date", "info", "nodes", "url-list", "httpseeds", "piece layers",
            "similar", "collections", "source", "private", "name", "piece length", "pieces", "files", "file tree", "meta version", "length", "attr", "path", "symlink path", "pieces root", "cross_seed_entry",
            "x_cross_seed", "md5sum", "md5", "sha1", "sha256"};
        if (g.chance(70)) return some;
        auto k = g.bytes(1 + g.size(14));
        return meant.contains(k) || dt::is_hash_function_name(k) ? some : k;
    };
    if (g.chance(40)) {
        for (auto n = 1 + g.draw(2); n; --n) root[other_key(g.pick({"encoding", "publisher", "publisher-url", "azureus_properties", "libtorrent_resume", "x", "", "zz", "infohash", "profiles"}))] = tg::any_value(g);
        used("unknown keys");
    }
    if (g.chance(30)) { for (auto n = 1 + g.draw(2); n; --n) { std::string k = other_key(g.pick({"entropy", "name.utf-8", "publisher", "x_cross_seed", "ttg_tag", "unique", "zz"})); info[k] = t.other[k] = tg::any_value(g); } used("unknown info keys"); }
    // the name of the one file is the name of the torrent, whatever else is there
    if (info.d.contains("length") && g.chance(15)) { info["path"] = t.other["path"] = g.boolean() ? tg::any_value(g) : g.boolean() ? ben::value::make_list({value("x")}) : ben::value::make_list({value("d"), value("x")}); used("a path in the info dictionary"); }
    // fields of files mean nothing in the info dictionary of a torrent with a list of files
    if (!info.d.contains("length") && g.chance(15)) { std::string k = g.pick({"attr", "symlink path", "md5", "sha1", "sha256", "blake2b_512", "path", "pieces root"}); info[k] = t.other[k] = g.boolean() ? tg::any_value(g) : value("x"); used("file keys in the info dictionary"); }
    if (g.chance(30) && !t.single) {
        each_file(info, [&](value& f) { if (g.boolean()) f[g.pick({"path.utf-8", "mtime", "ed2k", "md5sum", "sha1sum", "x"})] = tg::any_value(g); });
        used("unknown keys of files"); same_info = false;
    }
    if (t.protocol == dt::protocol::v1 && g.chance(10)) { info["meta version"] = value(std::int64_t{1}); used("meta version 1"); same_info = false; }
    if (t.protocol == dt::protocol::v2 && g.chance(15)) { info["pieces"] = ""; used("no v1 pieces"); same_info = false; }
    if (t.v2() && g.chance(20)) { root.d["piece layers"].d[g.blob(32)] = g.blob(64); used("piece layer of no file"); }
    if (t.protocol == dt::protocol::hybrid && g.chance(20)) {
        each_file(info, [&](value& f) { if (f.find("pieces root") && g.boolean()) f["md5"] = g.blob(16); });
        used("checksums in the file tree of a hybrid torrent"); same_info = false;
    }
    // a torrent of a later version is not for us
    const bool later = g.chance(3);
    if (later) { info["meta version"] = value(static_cast<std::int64_t>(g.pick({0, 3, 4, -1, 258}))); g.label("unsupported version"); }

    auto bytes = ben::encode(root);
    g.note() << tg::show(t) << (g.replaying() ? ": " + vp::quoted(bytes, 3000) : "");
    g.nontrivial(forms > 1 && t.total());
    for (int route = 0; route < 2; ++route) {
        std::optional<dt::metafile> m; std::string error;
        try {
            if (route == 0) m.emplace(dt::read_metafile(std::string_view(bytes)));
            else { std::istringstream is(bytes); m.emplace(dt::read_metafile(is)); }
        }
        catch (const dt::parse_error& e) { error = e.what(); }
        catch (const std::exception& e) { error = e.what(); VP_REQUIRE(!later, << "unsupported version reported as " << error); }
        if (later) { VP_REQUIRE(!m, << "a torrent of an unsupported version was read"); continue; }
        VP_REQUIRE(m.has_value(), << "a valid torrent was refused: " << error << ": " << vp::quoted(bytes, 1500));
        tg::same(*m, t, t.protocol, route ? "read from a stream" : "read from a buffer");
        // changes outside of the info dictionary keep it
        if (!same_info) continue;
        for (auto n = g.draw(3); n; --n) switch (g.draw(6)) {
            case 0: m->clear_trackers(); m->add_tracker("udp://new"); break;
            case 1: m->set_comment("new"); break;
            case 2: m->add_web_seed("http://new"); m->clear_http_seeds(); break;
            case 3: m->add_collection("new"); break;
            case 4: m->clear_similar_torrents(); break;
            case 5: m->set_creation_date(std::time_t{77}); break;
            default: m->clear_dht_nodes();
        }
        std::string err; auto again = ben::decode(dt::write_metafile(*m, t.protocol), &err);
        VP_REQUIRE(again.has_value(), << err);
        VP_REQUIRE(again->find("info") && ben::encode(*again->find("info")) == ben::encode(info), << "the info dictionary changed from " << vp::quoted(ben::encode(info), 1200) << " to " << vp::quoted(ben::encode(*again->find("info")), 1200));
        if (m->total_regular_file_size()) {
            auto i = ben::encode(info);
            if (t.v1()) VP_EQ(ref::hex(std::string_view(dt::info_hash_v1(*m))), ref::hex(ref::sha1(i)), << "v1 info hash");
            if (t.v2()) VP_EQ(ref::hex(std::string_view(dt::info_hash_v2(*m))), ref::hex(ref::sha256(i)), << "v2 info hash");
        }
        g.label("info hash kept");
    }
}
