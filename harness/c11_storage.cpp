// C11 file storage: accounting, piece geometry, alignment, directory queries and copies against a plain model; file entries from disk.
#include "pbt.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
#include "ref_digest.hpp"
#include "dottorrent/file_storage.hpp"
#include "dottorrent/metafile.hpp"

namespace dt = dottorrent;
namespace fs = std::filesystem;
const char* const vp::rule = "a case is a history of adding, removing, aligning, copying and querying on a storage of up to 25 files with sizes around piece boundaries, or a small directory tree "
    "on disk with plain files, executables and symlinks turned into entries; non-trivial: at least three files of which one is empty or not aligned, or a tree with a symlink or a path outside the root";

namespace {
struct file { std::string path; std::uint64_t size = 0; std::optional<dt::file_attributes> attr; std::map<std::string, std::string> sums; std::optional<std::string> root; std::vector<std::string> layer; std::string link; std::optional<long long> mtime;
    bool pad() const { return attr && (*attr & dt::file_attributes::padding_file) == dt::file_attributes::padding_file; }
    bool symlink() const { return attr && (*attr & dt::file_attributes::symlink) == dt::file_attributes::symlink; } };

dt::sha256_hash h256(const std::string& s) { return dt::sha256_hash(std::string_view(s)); }

dt::file_entry make(const file& f)
{
    dt::file_entry e(f.path, f.size, f.attr, f.symlink() ? std::optional<fs::path>(f.link) : std::nullopt);
    for (auto& [k, v] : f.sums) e.add_checksum(dt::make_checksum(k, std::string_view(v)));
    if (f.root) e.set_pieces_root(h256(*f.root));
    if (!f.layer.empty()) { std::vector<dt::sha256_hash> l; for (auto& x : f.layer) l.push_back(h256(x)); e.set_piece_layer(l); }
    if (f.mtime) e.set_last_modified_time(fs::file_time_type(std::chrono::seconds(*f.mtime)));
    return e;
}

void same_entry(const dt::file_entry& e, const file& f, const char* what)
{
    VP_EQ(e.path().generic_string(), f.path, << what); VP_EQ(e.file_size(), f.size, << what << " " << f.path);
    VP_REQUIRE(e.attributes() == f.attr, << what << ": attributes of " << f.path);
    VP_EQ(e.is_padding_file(), f.pad(), << what); VP_EQ(e.is_symlink(), f.symlink(), << what);
    auto flag = [&](dt::file_attributes a) { return f.attr && (*f.attr & a) == a; };
    VP_EQ(e.is_executable(), flag(dt::file_attributes::executable), << what); VP_EQ(e.is_hidden(), flag(dt::file_attributes::hidden), << what);
    VP_EQ(e.symlink_path().has_value(), f.symlink(), << what);
    if (f.symlink()) VP_EQ(e.symlink_path()->generic_string(), f.link, << what);
    VP_EQ(e.checksums().size(), f.sums.size(), << what << ": number of checksums of " << f.path);
    for (auto& [k, v] : f.sums) {
        auto* c = e.get_checksum(k);
        VP_REQUIRE(c != nullptr, << what << ": checksum " << k << " of " << f.path << " is gone");
        VP_EQ(ref::hex(ref::str(c->value())), ref::hex(v), << what << ": checksum " << k); VP_EQ(std::string(c->name()), k);
        VP_REQUIRE(e.get_checksum(ref::find(k).f) == c, << what << ": lookup by algorithm");
    }
    VP_REQUIRE(e.get_checksum("no-such-algorithm") == nullptr);
    VP_EQ(e.has_v2_data(), f.root.has_value(), << what << ": v2 data of " << f.path);
    if (f.root) {
        VP_EQ(ref::hex(std::string_view(e.pieces_root())), ref::hex(*f.root), << what << ": pieces root");
        VP_EQ(e.piece_layer().size(), f.layer.size(), << what << ": piece layer");
        for (std::size_t i = 0; i < f.layer.size(); ++i) VP_REQUIRE(std::string_view(e.piece_layer()[i]) == f.layer[i], << what << ": piece layer " << i);
    }
    else {
        int threw = 0;
        try { (void)e.pieces_root(); } catch (const std::invalid_argument&) { ++threw; }
        try { (void)e.piece_layer(); } catch (const std::invalid_argument&) { ++threw; }
        VP_EQ(threw, 2, << what << ": v2 data read from an entry without it");
    }
    VP_EQ(e.last_modified_time().has_value(), f.mtime.has_value(), << what);
    if (f.mtime) VP_REQUIRE(*e.last_modified_time() == fs::file_time_type(std::chrono::seconds(*f.mtime)), << what << ": modification time");
}

struct model {
    std::vector<file> v; std::uint64_t ps = 0; std::optional<std::vector<std::string>> pieces; std::optional<dt::file_mode> mode; fs::path root;
    std::uint64_t total() const { std::uint64_t t = 0; for (auto& f : v) t += f.size; return t; }
    std::uint64_t regular() const { std::uint64_t t = 0; for (auto& f : v) if (!f.pad()) t += f.size; return t; }
    std::uint64_t count() const { return ps ? total() / ps + (total() % ps != 0) : 0; }
};

std::vector<std::string> dirs_of(const std::string& p)
{
    std::vector<std::string> r;
    for (std::size_t i = p.find('/'); i != std::string::npos; i = p.find('/', i + 1)) r.push_back(p.substr(0, i));
    return r;
}
bool inside(const std::string& p, const std::string& d) { return d.empty() || (p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/'); }

void same(const dt::file_storage& s, const model& m, const char* what)
{
    VP_EQ(s.file_count(), m.v.size(), << what); VP_EQ(s.size(), m.v.size(), << what);
    VP_EQ(s.total_file_size(), m.total(), << what); VP_EQ(s.total_regular_file_size(), m.regular(), << what);
    VP_EQ(s.regular_file_count(), static_cast<std::size_t>(std::count_if(m.v.begin(), m.v.end(), [](auto& f) { return !f.pad(); })), << what);
    VP_EQ(s.piece_size(), m.ps, << what); VP_EQ(s.piece_count(), m.count(), << what);
    std::size_t i = 0;
    for (const auto& e : s) same_entry(e, m.v.at(i++), what);
    if (!m.v.empty()) {
        VP_REQUIRE(&s.front() == &s[0] && &s.back() == &s[m.v.size() - 1] && &s.at(0) == &s[0], << what);
        std::vector<const dt::file_entry*> there, back; dt::file_storage& w = const_cast<dt::file_storage&>(s);
        for (auto& e : s) there.push_back(&e);
        std::reverse(there.begin(), there.end());
        for (auto it = s.rbegin(); it != s.rend(); ++it) back.push_back(&*it);
        VP_REQUIRE(back == there, << what << ": reverse iteration"); back.clear();
        for (auto it = s.crbegin(); it != s.crend(); ++it) back.push_back(&*it);
        VP_REQUIRE(back == there, << what << ": reverse iteration"); back.clear();
        for (auto it = w.rbegin(); it != w.rend(); ++it) back.push_back(&*it);
        VP_REQUIRE(back == there, << what << ": reverse iteration"); std::reverse(back.begin(), back.end()); there.clear();
        for (auto it = s.cbegin(); it != s.cend(); ++it) there.push_back(&*it);
        VP_REQUIRE(back == there, << what << ": iteration"); there.clear();
        for (auto& e : w) there.push_back(&e);
        VP_REQUIRE(back == there && &w.front() == back.front() && &w.back() == back.back() && &w.at(0) == back.front(), << what << ": iteration");
        VP_REQUIRE(s.rbegin()->path() == s.back().path() && s.crbegin()->path() == s.back().path() && s.cbegin()->path() == s.front().path());
    }
    bool threw = false; try { (void)s.at(m.v.size()); } catch (const std::out_of_range&) { threw = true; }
    VP_REQUIRE(threw, << what << ": at(size)");
    if (m.pieces) { VP_EQ(s.pieces().size(), m.pieces->size(), << what << ": pieces"); for (std::size_t k = 0; k < m.pieces->size(); ++k) VP_REQUIRE(std::string_view(s.pieces()[k]) == (*m.pieces)[k], << what << ": piece " << k); }
    if (m.v.empty()) VP_EQ(s.file_mode(), dt::file_mode::empty, << what);
    else if (m.v.size() > 1) VP_EQ(s.file_mode(), dt::file_mode::multi, << what);
    else if (m.mode) VP_EQ(s.file_mode(), *m.mode, << what << ": file mode");
    else VP_REQUIRE(s.file_mode() != dt::file_mode::empty, << what << ": a storage with a file reports to be empty");
    VP_EQ(s.root_directory().string(), m.root.string(), << what); VP_EQ(s.has_root_directory(), !m.root.empty());
}

void geometry(const dt::file_storage& s, const model& m)
{
    auto ex = dt::exclusive_file_size_scan(s), v1 = dt::inclusive_file_size_scan_v1(s), v2 = dt::inclusive_file_size_scan_v2(s);
    VP_EQ(ex.size(), m.v.size()); VP_EQ(v1.size(), m.v.size()); VP_EQ(v2.size(), m.v.size());
    std::uint64_t off = 0, reg = 0; bool aligned = true;
    for (std::size_t i = 0; i < m.v.size(); ++i) {
        auto& f = m.v[i];
        VP_EQ(ex[i], off, << "exclusive scan " << i);
        if (m.ps) {
            auto [a, b] = s.get_pieces_offsets(i);
            if (f.size == 0) VP_EQ(a, b, << "pieces of an empty file");
            else { VP_EQ(a, off / m.ps, << "first piece of file " << i << " at " << off << " size " << f.size << " piece size " << m.ps); VP_EQ(b, (off + f.size - 1) / m.ps + 1, << "end of the pieces of file " << i << " at " << off << " size " << f.size << " piece size " << m.ps); }
            if (m.pieces && m.pieces->size() == m.count()) {
                auto sp = s.get_pieces_span(i);
                VP_EQ(sp.size(), b - a);
                for (std::size_t k = 0; k < sp.size(); ++k) VP_REQUIRE(std::string_view(sp[k]) == (*m.pieces)[a + k], << "piece " << k << " of file " << i);
            }
            if (!f.pad() && off % m.ps) aligned = false;
        }
        off += f.size; if (!f.pad()) reg += f.size;
        VP_EQ(v1[i], off, << "inclusive scan " << i); VP_EQ(v2[i], reg, << "inclusive scan without padding " << i);
    }
    if (m.ps) VP_EQ(dt::is_piece_aligned(s), aligned, << "is_piece_aligned");
    if (m.pieces && m.pieces->size() == m.count()) { std::string all; for (auto& p : *m.pieces) all += p; VP_EQ(ref::hex(dt::make_v1_pieces_string(s)), ref::hex(all)); for (std::size_t k = 0; k < m.pieces->size(); ++k) VP_REQUIRE(std::string_view(s.get_piece_hash(k)) == (*m.pieces)[k]); }
}

void directories(const dt::file_storage& s, const model& m, const std::vector<std::string>& comps)
{
    std::set<std::string> files, dirs; for (auto& f : m.v) { files.insert(f.path); for (auto& d : dirs_of(f.path)) dirs.insert(d); }
    auto padonly = [&](const std::string& d) { return std::all_of(m.v.begin(), m.v.end(), [&](auto& f) { return !inside(f.path, d) || f.pad(); }); };
    auto ask = dirs; ask.insert(""); for (auto& c : comps) { ask.insert(c); ask.insert(c + "/" + comps[0]); }
    for (auto& d : ask) {
        if (files.count(d)) continue;      // not a directory
        std::multiset<std::string> want, got; for (auto& f : m.v) if (inside(f.path, d)) want.insert(f.path);
        for (auto* e : s.directory_contents(d)) got.insert(e->path().generic_string());
        VP_REQUIRE(got == want, << "contents of directory " << vp::quoted(d) << ": " << got.size() << " files, expected " << want.size());
        if (!d.empty()) { got.clear(); for (auto* e : s.directory_contents(d + "/")) got.insert(e->path().generic_string()); VP_REQUIRE(got == want, << "contents of directory " << vp::quoted(d + "/")); }
        if (!want.empty()) VP_EQ(dt::is_padding_directory(s, d), padonly(d), << "is_padding_directory " << d);
    }
    bool clash = std::any_of(dirs.begin(), dirs.end(), [&](auto& d) { return files.count(d) != 0; });
    if (!clash) {
        VP_EQ(dt::directory_count(s), dirs.size(), << "directory_count");
        VP_EQ(dt::directory_count(s, "", false), static_cast<std::size_t>(std::count_if(dirs.begin(), dirs.end(), [&](auto& d) { return !padonly(d); })), << "directory_count without padding directories");
    }
}

void history(vp::gen& g)
{
    static const std::vector<std::string> comps = {"a", "ab", "a-b", "b", ".pad", "c.txt", "a.", "..x"};
    static const std::uint64_t P = 16384;
    auto s = std::make_unique<dt::file_storage>(); model m;
    auto path = [&] { std::string p = g.pick(comps); for (auto n = g.draw(3); n; --n) p += "/" + g.pick(comps); return p; };
    auto size = [&]() -> std::uint64_t {
        switch (g.weighted({3, 6, 4, 1})) {
        case 0: return 0;
        case 1: { auto k = g.draw(4); auto d = g.draw(4); auto x = k * P + d; return x < 2 ? x : x - 2; }
        case 2: return g.draw(5 * P);
        default: return g.draw(1ULL << 36);
        }
    };
    auto fresh = [&] {
        file f; f.path = path(); f.size = size();
        if (g.chance(50)) f.attr = static_cast<dt::file_attributes>(g.draw(3) << 1 & 6);
        if (g.chance(10)) { f.attr = dt::file_attributes::padding_file; f.path = ".pad/" + std::to_string(f.size); }
        else if (g.chance(8)) { f.attr = dt::file_attributes::symlink; f.size = 0; f.link = path(); }
        if (g.chance(25)) for (auto n = 1 + g.draw(2); n; --n) { auto& a = ref::algorithms()[g.draw(ref::algorithms().size() - 1)]; f.sums[a.name] = g.blob(a.size); }
        if (g.chance(35) && !f.pad()) { f.root = g.blob(32); for (auto n = g.draw(3); n; --n) f.layer.push_back(g.blob(32)); }
        if (g.chance(20)) f.mtime = static_cast<long long>(g.draw(2000000000));
        return f;
    };
    auto ops = 2 + g.size(24); bool big = false;
    if (g.chance(3)) { // a large torrent to begin with
        g.label("many files");
        auto n = 20 + g.draw(280); auto dirs = 1 + g.draw(40); auto step = 1 + g.draw(6);
        for (std::size_t i = 0; i < n; ++i) {
            file f; f.path = g.pick(comps) + "/" + std::to_string(i * 7 % dirs) + "/" + std::to_string(i * step % n) + "-" + std::to_string(i);
            f.size = i % 5 == 0 ? size() : (i * 977) % (3 * P);
            s->add_file(make(f)); m.v.push_back(f);
        }
        ops = 1 + ops / 4;
    }
    for (std::size_t k = 0; k < ops; ++k) {
        switch (g.weighted({12, 4, 2, 4, 3, 3, 2, 3, 3, 1, 2, 2, 3})) {
        case 0: {
            auto f = fresh(); auto e = make(f); m.v.push_back(f);
            switch (g.draw(2)) { case 0: s->add_file(std::as_const(e)); same_entry(e, f, "source of a copy"); break; case 1: s->add_file(std::move(e)); break;
            default: { std::vector<dt::file_entry> l{e}; s->add_files(l.begin(), l.end()); } }
            break;
        }
        case 1: {
            if (m.v.empty()) break;
            auto p = g.chance(80) ? m.v[g.draw(m.v.size() - 1)].path : path();
            auto it = std::find_if(m.v.begin(), m.v.end(), [&](auto& f) { return f.path == p; });
            if (it != m.v.end()) m.v.erase(it);
            s->remove_file(dt::file_entry(p, g.draw(3)));
            break;
        }
        case 2: s->clear(); m.v.clear(); m.pieces.reset(); break;
        case 3: {
            m.ps = P << g.draw(3); s->set_piece_size(m.ps);
            m.pieces.emplace(); for (auto& f : m.v) { f.root.reset(); f.layer.clear(); }
            break;
        }
        case 4: {
            if (!m.ps || m.count() > 3000) break;
            s->allocate_pieces(); m.pieces.emplace(m.count(), std::string(20, '\0'));
            for (std::size_t i = 0; i < m.pieces->size(); ++i) if (i < 40 || i + 3 > m.pieces->size()) { auto h = ref::sha1(std::to_string(i) + "/" + std::to_string(k)); s->set_piece_hash(i, dt::sha1_hash(std::string_view(h))); (*m.pieces)[i] = h; }
            break;
        }
        case 5: {
            if (!m.ps) break;
            dt::optimize_alignment(*s);
            std::vector<file> out; std::uint64_t off = 0;
            for (auto& f : m.v) {
                if (off % m.ps && !f.pad()) { file p; p.size = m.ps - off % m.ps; p.path = ".pad/" + std::to_string(p.size); p.attr = dt::file_attributes::padding_file; off += p.size; out.push_back(p); }
                off += f.size; out.push_back(f);
            }
            m.v = out; m.pieces.reset();
            same(*s, m, "optimize_alignment");
            VP_REQUIRE(dt::is_piece_aligned(*s), << "not aligned after optimize_alignment");
            g.label("aligned");
            break;
        }
        case 6: {
            m.mode = g.boolean() ? dt::file_mode::single : dt::file_mode::multi; s->set_file_mode(*m.mode); break;
        }
        case 7: {
            auto c = std::make_unique<dt::file_storage>(*s);
            same(*c, m, "copy");
            if (g.boolean()) { c->add_file(dt::file_entry("extra/file", 77)); same(*s, m, "after changing a copy"); directories(*c, [&] { auto x = m; file f; f.path = "extra/file"; f.size = 77; x.v.push_back(f); return x; }(), comps); }
            else { VP_REQUIRE(*c == *s, << "a copy is not equal"); s = std::move(c); }
            break;
        }
        case 8: {
            dt::file_storage c; c.add_file(dt::file_entry("old/file", 5)); c.add_file(dt::file_entry("old/other", 5));
            if (g.boolean()) (void)c.directory_contents("old");
            if (g.boolean()) c = *s; else c = dt::file_storage(*s);
            same(c, m, "assignment"); directories(c, m, comps);
            VP_REQUIRE(c == *s, << "an assigned storage is not equal");
            dt::file_storage& self = *s; *s = self; same(*s, m, "self assignment");
            break;
        }
        case 9: {
            auto p = dt::choose_piece_size(*s);
            m.ps = s->piece_size(); VP_EQ(p, m.ps, << "choose_piece_size");
            VP_REQUIRE(m.ps && (m.ps & (m.ps - 1)) == 0 && m.ps >= 32768 && m.ps <= (16u << 20), << "chosen piece size " << m.ps << " for " << m.total());
            const auto count = m.total() / m.ps + (m.total() % m.ps != 0);
            VP_REQUIRE((count >= 512 || m.ps == 32768) && (count <= 1024 || m.ps == (16u << 20)), << "chosen piece size " << m.ps << " for " << m.total());
            m.pieces.emplace(); for (auto& f : m.v) { f.root.reset(); f.layer.clear(); }
            break;
        }
        case 10: directories(*s, m, comps); break;
        case 12: { // hashes of a file in place
            if (m.v.empty()) break;
            auto i = g.draw(m.v.size() - 1); auto& f = m.v[i];
            if (f.pad() || f.symlink()) break;
            if (!f.root || g.boolean()) { f.root = g.blob(32); (*s)[i].set_pieces_root(dt::sha256_hash(std::string_view(*f.root))); }
            if (g.boolean()) {
                f.layer.clear(); std::vector<dt::sha256_hash> l;
                for (auto n = g.draw(3); n; --n) { f.layer.push_back(g.blob(32)); l.emplace_back(std::string_view(f.layer.back())); }
                (*s)[i].set_piece_layer(l);
            }
            g.label("hashes set in place");
            break;
        }
        default: geometry(*s, m); break;
        }
        same(*s, m, "history");
        big |= m.v.size() >= 3 && std::any_of(m.v.begin(), m.v.end(), [&](auto& f) { return f.size == 0 || (m.ps && f.size % m.ps); });
    }
    geometry(*s, m); directories(*s, m, comps);
    // supported protocols
    if (std::any_of(m.v.begin(), m.v.end(), [](auto& f) { return f.size && !f.pad(); }) && m.pieces) {
        bool v1 = !m.pieces->empty();
        bool v2 = std::all_of(m.v.begin(), m.v.end(), [](auto& f) { return f.pad() || f.symlink() || f.size == 0 || f.root; });
        auto want = v1 ? (v2 ? dt::protocol::hybrid : dt::protocol::v1) : v2 ? dt::protocol::v2 : dt::protocol::none;
        VP_EQ(s->protocol(), want, << "protocol");
        if (v1 && v2) g.label("hybrid data"); else if (v1) g.label("v1 data"); else if (v2) g.label("v2 data");
    }
    g.note() << ops << " operations, " << m.v.size() << " files, " << m.total() << " bytes, piece size " << m.ps;
    g.nontrivial(big);
}

void entries(vp::gen& g)
{
    // one entry through copies, moves, assignments and checksum changes
    auto gen_file = [&] {
        file f; f.path = "d/" + std::to_string(g.draw(3)); f.size = g.draw(99); if (g.boolean()) f.attr = static_cast<dt::file_attributes>(g.draw(15) & ~1);
        if (g.chance(20)) { f.attr = dt::file_attributes::symlink | dt::file_attributes::executable; f.size = 0; f.link = "x/y"; }
        for (auto n = g.draw(3); n; --n) { auto& a = ref::algorithms()[g.draw(ref::algorithms().size() - 1)]; f.sums[a.name] = g.blob(a.size); }
        if (g.boolean()) { f.root = g.blob(32); for (auto n = g.draw(3); n; --n) f.layer.push_back(g.blob(32)); }
        if (g.boolean()) f.mtime = static_cast<long long>(g.draw(2000000000));
        return f;
    };
    std::vector<file> m{gen_file(), gen_file()}; std::vector<dt::file_entry> e{make(m[0]), make(m[1])};
    for (auto k = 1 + g.draw(12); k; --k) {
        auto i = g.draw(1), j = 1 - i;
        switch (g.draw(7)) {
        case 0: e[i] = e[j]; m[i] = m[j]; same_entry(e[j], m[j], "source of a copy assignment"); break;
        case 1: e[i] = std::move(e[j]); m[i] = m[j]; m[j] = gen_file(); e[j] = make(m[j]); break;
        case 2: { dt::file_entry t(std::move(e[i])); same_entry(t, m[i], "moved entry"); e[i] = t; break; }
        case 3: { dt::file_entry t(e[i]); same_entry(t, m[i], "copied entry"); break; }
        case 4: { auto& a = ref::algorithms()[g.draw(ref::algorithms().size() - 1)]; auto v = g.blob(a.size); m[i].sums[a.name] = v; e[i].add_checksum(dt::make_checksum(std::string_view(a.name), std::string_view(v))); break; }
        case 5: { auto& a = ref::algorithms()[g.draw(ref::algorithms().size() - 1)]; std::string k2 = m[i].sums.empty() || g.chance(20) ? std::string(a.name) : m[i].sums.begin()->first; m[i].sums.erase(k2); e[i].remove_checksum(std::string_view(k2)); break; }
        case 6: { dt::file_entry& self = e[i]; if (g.boolean()) e[i] = self; else e[i] = std::move(self); break; }
        default: std::swap(e[0], e[1]); std::swap(m[0], m[1]); break;
        }
        same_entry(e[0], m[0], "entry 0"); same_entry(e[1], m[1], "entry 1");
        VP_EQ(e[0] == e[1], m[0].path == m[1].path); VP_EQ((e[0] <=> e[1]) == 0, m[0].path == m[1].path); VP_EQ((e[0] <=> e[1]) < 0, m[0].path < m[1].path);
    }
    g.nontrivial(m[0].sums.size() + m[1].sums.size() > 0);
    g.note() << "entry history";
}

void on_disk(vp::gen& g)
{
    static int serial = 0;
    auto base = fs::canonical(vp::scratch()) / ("t" + std::to_string(serial++ % 4));
    fs::remove_all(base); fs::create_directories(base / "root/sub/deep"); fs::create_directories(base / "root2");
    auto root = base / "root";
    struct disk { std::string rel; std::uint64_t size; bool exec; };
    std::vector<disk> files;
    static const std::vector<std::string> names = {"f", "..f", "sub/g", "sub/deep/h", "sub/.hid", "a b", "..."};
    for (auto& n : names) if (g.chance(70)) {
        disk d{n, g.draw(40), g.boolean()};
        std::ofstream(root / n, std::ios::binary) << std::string(d.size, 'x');
        ::chmod((root / n).c_str(), d.exec ? (g.boolean() ? 0755 : 0610) : 0644);
        files.push_back(d);
    }
    std::ofstream(base / "root2/out") << "out";
    std::ofstream(base / "outside") << "outside";
    dt::file_storage s;
    s.set_root_directory(g.boolean() ? root : root / "");
    VP_EQ(s.root_directory().string(), root.string(), << "root directory");
    bool odd = false;
    auto option = [&] { return g.pick({dt::file_options::none, dt::file_options::add_attributes, dt::file_options::copy_symlinks}); };
    std::size_t added = 0;
    for (auto& d : files) {
        auto o = option();
        fs::path p;
        switch (g.draw(3)) { case 0: p = root / d.rel; break; case 1: p = root / "sub/.." / d.rel; odd = true; break; case 2: p = root / "." / d.rel; break; default: p = fs::relative(root / d.rel); }
        s.add_file(p, o);
        auto& e = s.back(); ++added;
        VP_EQ(e.path().generic_string(), d.rel, << "entry made from " << p);
        VP_EQ(e.file_size(), d.size); VP_REQUIRE(!e.is_symlink() && !e.is_padding_file() && !e.is_hidden());
        VP_EQ(e.attributes().has_value(), o != dt::file_options::none); VP_EQ(e.is_executable(), o != dt::file_options::none && d.exec, << "executable flag of " << d.rel);
    }
    VP_EQ(s.file_count(), added);
    // things that must be refused
    auto refused = [&](const fs::path& p, dt::file_options o) {
        bool threw = false; try { s.add_file(p, o); } catch (const gsl::fail_fast&) { throw; } catch (const std::exception&) { threw = true; }
        VP_REQUIRE(threw, << p << " was accepted as " << s.back().path());
        VP_EQ(s.file_count(), added);
    };
    switch (g.draw(5)) {
    case 0: refused(base / "outside", option()); odd = true; break;
    case 1: refused(root / "sub/../../outside", option()); odd = true; break;
    case 2: refused(base / "root2/out", option()); odd = true; break;
    case 3: refused(root / "missing", option()); break;
    case 4: refused(root / "sub", option()); break;
    default: {
        dt::file_storage none; bool threw = false;
        try { none.add_file(base / "outside"); } catch (const gsl::fail_fast&) { throw; } catch (const std::exception&) { threw = true; }
        VP_REQUIRE(threw, << "a file was added to a storage without root directory as " << (none.file_count() ? none[0].path().string() : ""));
    }
    }
    // symlinks
    if (!files.empty() && g.chance(70)) {
        odd = true;
        auto& d = files[g.draw(files.size() - 1)];
        auto at = g.pick(std::vector<std::string>{"ln", "sub/ln", "sub/deep/ln"});
        bool to_dir = g.chance(25);
        auto target = to_dir ? std::string("sub/deep") : d.rel;
        if (to_dir && at == "sub/deep/ln") at = "ln";
        auto abs = root / target;
        fs::create_symlink(g.boolean() ? abs : abs.lexically_relative((root / at).parent_path()), root / at);
        auto o = to_dir ? dt::file_options::copy_symlinks : option();
        s.add_file(root / at, o); auto& e = s.back();
        VP_EQ(e.path().generic_string(), at);
        bool copied = o == dt::file_options::copy_symlinks;
        VP_EQ(e.is_symlink(), copied, << "symlink copied as a link with option " << static_cast<int>(o));
        if (copied) { VP_EQ(e.file_size(), 0u); VP_EQ(e.symlink_path()->generic_string(), target, << "target of " << at); }
        else { VP_EQ(e.file_size(), d.size, << "size of the target"); VP_REQUIRE(!e.symlink_path().has_value()); }
        g.label("symlink");
    }
    if (!files.empty()) {
        auto paths = dt::absolute_file_paths(s);
        VP_EQ(paths.size(), s.file_count());
        for (std::size_t i = 0; i < files.size(); ++i) VP_EQ(paths[i].string(), (root / files[i].rel).string(), << "absolute path");
    }
    fs::remove_all(base);
    if (!files.empty()) {
        bool threw = false;
        try { (void)dt::absolute_file_paths(s); } catch (const std::invalid_argument&) { threw = true; }
        VP_REQUIRE(threw, << "absolute paths of files below a directory that does not exist");
    }
    g.nontrivial(odd);
    g.note() << files.size() << " files on disk";
}
}

void vp::property(gen& g)
{
    switch (g.weighted({70, 22, 8})) {
    case 0: g.label("storage history"); history(g); break;
    case 1: g.label("entry history"); entries(g); break;
    default: g.label("files on disk"); on_disk(g); break;
    }
}
