// Generated directories on disk and the reference piece hashes, piece roots and piece layers of their content.
#pragma once
#include <chrono>
#include <bit>
#include "pbt.hpp"
#include "ref_digest.hpp"
#include "dottorrent/file_storage.hpp"
#include "dottorrent/metafile.hpp"
#include "dottorrent/storage_hasher.hpp"

namespace dk {
namespace dt = dottorrent;
namespace fs = std::filesystem;

enum class kind { regular, padding, symlink };
struct file { std::string path; kind k = kind::regular; std::size_t size = 0; std::string content {}; };
struct job {
    fs::path root;
    std::vector<file> files;
    std::size_t piece_size = 16384;
    std::optional<std::size_t> block;
    std::optional<std::size_t> memory;
    std::size_t threads = 2;
    std::vector<const ref::algo*> sums;
    bool single = false;
    bool multi_buffer = true;  // matters only with multi-buffer hashing compiled in
    bool padded = false;       // some files are followed by padding already
    bool auto_piece = false;   // the piece size is left to the hasher
};
/// content without zero bytes: zero-filled gaps are then always different from it, see also zeros()
inline std::string content(std::size_t n, std::uint64_t seed)
{
    std::string s(n, '\0');
    std::uint64_t x = seed;
    for (std::size_t i = 0; i < n; ) {
        x = vp::mix(x + 77);
        for (int k = 0; k < 8 && i < n; ++k, ++i) s[i] = static_cast<char>(1 + ((x >> (8 * k)) & 0xff) % 255);
    }
    return s;
}
inline void write(const fs::path& p, std::string_view data)
{
    fs::create_directories(p.parent_path());
    std::ofstream o(p, std::ios::binary | std::ios::trunc);
    o.write(data.data(), static_cast<std::streamsize>(data.size()));
    if (!o.flush()) throw std::runtime_error("cannot write " + p.string());
}
/// fresh directory of this process
inline fs::path fresh()
{
    static int serial = 0;
    static const fs::path base = fs::canonical(vp::scratch());
    auto p = base / ("d" + std::to_string(serial++ % 2));
    fs::remove_all(p);
    fs::create_directories(p);
    return p;
}
inline std::size_t gen_size(vp::gen& g, std::size_t piece, std::size_t chunk, std::size_t limit)
{
    std::size_t s = 0;
    switch (g.weighted({3, 3, 4, 2, 1})) {
    case 0: s = g.draw(300); break;
    case 1: s = g.pick<std::size_t>({16384, 16384, 2 * 16384, 3 * 16384, 5 * 16384, 7 * 16384}); break;
    case 2: s = piece * (1 + g.draw(4)); break;
    case 3: s = chunk * (1 + g.draw(1)); break;
    default: s = g.draw(200000);
    }
    switch (g.weighted({4, 2, 2, 1})) {
    case 0: break;
    case 1: s += 1; break;
    case 2: s = s ? s - 1 : 0; break;
    default: s += g.draw(20000);
    }
    return std::min(s, limit);
}
/// some files have zero bytes up to their end (as disk images do) or consist of them, and some repeat one block
inline void zeros(vp::gen& g, std::string& c)
{
    if (c.empty() || !g.chance(15)) return;
    switch (g.draw(3)) {
    case 0: std::fill(c.begin(), c.end(), '\0'); g.label("file of zeros"); break;
    case 3: for (std::size_t i = 16384; i < c.size(); ++i) c[i] = c[i - 16384]; g.label("file of equal blocks"); break;
    default: std::fill(c.begin() + static_cast<std::ptrdiff_t>(g.draw(c.size() - 1)), c.end(), '\0'); g.label("file ending in zeros");
    }
}
inline job generate(vp::gen& g, bool allow_padding, bool allow_special = true, std::size_t budget = 1200000)
{
    job j;
    j.root = fresh() / "root";
    fs::create_directories(j.root);
    j.piece_size = std::size_t(16384) << g.weighted({10, 4, 3, 1, 1});
    if (g.chance(2)) { j.piece_size = std::size_t(16384) << (5 + g.draw(5)); if (g.chance(30)) budget = 3 * j.piece_size; g.label("large pieces"); }
    switch (g.weighted({5, 3, 3, 1, 1})) {
    case 0: j.block = j.piece_size * (1 + g.draw(3)); break;
    case 1: j.block = 1; break;
    case 2: break;
    case 3: j.block = g.draw(300000); break;
    default: j.block = 16384 * (1 + g.draw(20));
    }
    const std::size_t wanted = std::max(j.piece_size, j.block.value_or(1 << 20));
    if (g.chance(50)) j.memory = g.draw(8) * 100000;
    j.threads = 1 + g.weighted({4, 4, 2, 1, 1, 1});
    j.single = g.chance(10);
    const bool many = !j.single && g.chance(1), large = g.chance(1);
    const auto n = j.single ? 1 : many ? 50 + g.draw(300) : 1 + g.size(9);
    if (many) { budget *= 2; g.label("many files"); }
    if (large) { budget = 10u << 20; g.label("large file"); }
    static const std::vector<std::string> dirs = {"", "", "sub/", "sub/deep/", "z/"};
    for (std::size_t i = 0; i < n; ++i) {
        file f;
        const auto w = j.single || !allow_special ? 0 : g.weighted({12, 2, allow_padding ? 2u : 0u, 1});
        if (w == 2) {
            f.k = kind::padding;
            f.size = std::min<std::size_t>(budget, g.chance(70) ? 1 + g.draw(j.piece_size - 1) : j.piece_size * g.draw(3) + g.draw(5));
            if (f.size == 0) f.size = 1;
            f.path = ".pad/" + std::to_string(f.size);
        }
        else {
            f.path = (j.single ? "" : g.pick(dirs)) + "f" + std::to_string(i);
            if (w == 3) f.k = kind::symlink;
            else if (large && i == 0) f.size = g.draw(9u << 20);
            else f.size = w == 1 ? 0 : many && g.chance(80) ? g.draw(5000) : gen_size(g, j.piece_size, std::min<std::size_t>(wanted, 600000), budget);
        }
        budget -= std::min(budget, f.size);
        if (f.k == kind::regular) { f.content = content(f.size, g.draw(1u << 20) + 1); zeros(g, f.content); }
        if (f.k == kind::padding) f.content = std::string(f.size, '\0');
        j.files.push_back(std::move(f));
    }
    std::int64_t seconds = 1600000000;
    for (auto& f : j.files) if (f.k == kind::regular) {
        write(j.root / f.path, f.content);
        fs::last_write_time(j.root / f.path, std::chrono::file_clock::from_sys(std::chrono::sys_seconds(std::chrono::seconds(seconds += 1000))));
    }
    for (auto& f : j.files) if (f.k == kind::symlink) {
        // a link to a file with content: the content belongs to that file only
        fs::create_directories((j.root / f.path).parent_path());
        for (auto& t : j.files) if (t.k == kind::regular) { f.content.clear(); fs::create_symlink(j.root / t.path, j.root / f.path); break; }
    }
#ifdef DOTTORRENT_USE_ISAL
    j.multi_buffer = g.chance(85);
#endif
    return j;
}
/// some files are followed by a padding file up to the end of the piece, as in a hybrid torrent, or shorter
inline void pad(vp::gen& g, job& j)
{
    std::vector<file> out;
    for (auto& f : j.files) {
        const auto rest = f.k == kind::regular && f.size % j.piece_size ? j.piece_size - f.size % j.piece_size : 0;
        out.push_back(std::move(f));
        if (rest == 0 || g.chance(40)) continue;
        file p;
        p.k = kind::padding;
        p.size = g.chance(75) ? rest : 1 + g.draw(rest - 1);
        p.path = ".pad/" + std::to_string(p.size);
        p.content = std::string(p.size, '\0');
        out.push_back(std::move(p));
    }
    j.files = std::move(out);
    j.single = j.single && j.files.size() == 1;
    j.padded = true;
    g.label("padding already present");
}
inline void choose_sums(vp::gen& g, job& j)
{
    const auto n = g.weighted({4, 3, 2, 1});
    for (std::size_t i = 0; i < n; ++i) {
        const auto& a = ref::algorithms()[g.draw(ref::algorithms().size() - 1)];
        if (!ref::available(a)) continue;
        if (std::find(j.sums.begin(), j.sums.end(), &a) == j.sums.end()) j.sums.push_back(&a);
    }
}
inline fs::path link_target(const job& j)
{
    for (auto& t : j.files) if (t.k == kind::regular) return t.path;
    return "nowhere";
}
inline void fill(const job& j, dt::file_storage& st)
{
    st.set_root_directory(j.root);
    for (auto& f : j.files) {
        switch (f.k) {
        case kind::regular: st.add_file(dt::file_entry(f.path, f.size)); break;
        case kind::padding: st.add_file(dt::make_padding_file_entry(f.size)); break;
        case kind::symlink: {
            st.add_file(dt::file_entry(f.path, 0, dt::file_attributes::symlink, link_target(j)));
        } }
    }
    st.set_file_mode(j.single ? dt::file_mode::single : dt::file_mode::multi);
    if (!j.auto_piece) st.set_piece_size(j.piece_size);
}
inline dt::storage_hasher_options options(const job& j, dt::protocol p)
{
    dt::storage_hasher_options o;
    o.protocol_version = p;
    for (auto* a : j.sums) o.checksums.insert(a->f);
    o.min_io_block_size = j.block;
    o.max_memory = j.memory;
    o.threads = j.threads;
    o.enable_multi_buffer_hashing = j.multi_buffer;
    return o;
}
/// the piece size chosen by a hasher
inline void adopt_piece_size(vp::gen& g, job& j, const dt::file_storage& st)
{
    if (!j.auto_piece) { VP_EQ(st.piece_size(), j.piece_size); return; }
    j.piece_size = st.piece_size();
    g.label("piece size chosen by the hasher");
    VP_REQUIRE(j.piece_size >= 16384 && (j.piece_size & (j.piece_size - 1)) == 0, << "piece size " << j.piece_size);
}
/// other content of the same size for some files
inline void rewrite(vp::gen& g, job& j)
{
    for (auto& f : j.files) if (f.k == kind::regular && f.size && g.boolean()) { f.content = content(f.size, g.draw(1u << 20) + 1); write(j.root / f.path, f.content); }
}
inline void show(vp::gen& g, const job& j)
{
    g.note() << "piece size " << j.piece_size << ", io block ";
    if (j.block) g.note() << *j.block; else g.note() << "default";
    g.note() << ", memory ";
    if (j.memory) g.note() << *j.memory; else g.note() << "default";
    g.note() << ", threads " << j.threads << ", checksums";
    for (auto* a : j.sums) g.note() << " " << a->name;
    g.note() << ", files";
    for (auto& f : j.files) g.note() << " " << (f.k == kind::padding ? "padding" : f.k == kind::symlink ? "symlink" : f.path) << ":" << f.size;
    g.note() << "; ";
    bool odd = false, empty = false; std::size_t total = 0;
    for (auto& f : j.files) {
        total += f.size;
        if (f.k == kind::padding) g.label("padding file");
        if (f.k == kind::symlink) g.label("symlink");
        if (f.k == kind::regular && f.size == 0) empty = true;
        if (f.size && f.size % j.piece_size == 0) g.label("file of whole pieces");
        if (f.size > j.piece_size) g.label("file of several pieces");
        odd = odd || f.size % j.piece_size;
    }
    if (empty) g.label("empty file");
    if (total == 0) g.label("no data at all");
    g.label("piece size " + std::to_string(j.piece_size));
    g.label(std::to_string(j.threads) + " threads");
    if (!j.sums.empty()) g.label("checksums");
}
// --- references -----------------------------------------------------------------------------
inline std::vector<std::string> v1_pieces(std::string_view all, std::size_t piece)
{
    std::vector<std::string> r;
    for (std::size_t o = 0; o < all.size(); o += piece) r.push_back(ref::sha1(all.substr(o, piece)));
    return r;
}
inline std::string reduce(std::vector<std::string> level, std::size_t width)
{
    level.resize(width, std::string(32, '\0'));
    while (level.size() > 1) {
        std::vector<std::string> up;
        for (std::size_t i = 0; i < level.size(); i += 2) up.push_back(ref::sha256(level[i] + level[i + 1]));
        level = std::move(up);
    }
    return level.front();
}
struct v2_hashes { std::string root; std::vector<std::string> layer; };
/// size > 0
inline v2_hashes v2(std::string_view data, std::size_t piece)
{
    std::vector<std::string> leaves;
    for (std::size_t o = 0; o < data.size(); o += 16384) leaves.push_back(ref::sha256(data.substr(o, 16384)));
    v2_hashes r;
    r.root = reduce(leaves, std::bit_ceil(leaves.size()));
    if (data.size() > piece) {
        const auto per = piece / 16384;
        for (std::size_t i = 0; i < leaves.size(); i += per)
            r.layer.push_back(reduce({leaves.begin() + i, leaves.begin() + std::min(leaves.size(), i + per)}, per));
    }
    return r;
}
/// the storage still lists the given files in order, apart from padding files; returns the v1 byte stream
inline std::string stream(const job& j, const dt::file_storage& st, bool same_padding)
{
    std::string all; std::size_t i = 0;
    for (const auto& e : st) {
        if (e.is_padding_file()) {
            all.append(e.file_size(), '\0');
            if (i < j.files.size() && j.files[i].k == kind::padding && j.files[i].size == e.file_size()) { ++i; continue; }
            VP_REQUIRE(!same_padding, << "unexpected padding file of " << e.file_size());
            continue;
        }
        VP_REQUIRE(i < j.files.size(), << "extra file " << e.path());
        VP_REQUIRE(j.files[i].k != kind::padding, << "padding file lost before " << e.path());
        VP_EQ(e.path().generic_string(), j.files[i].path);
        VP_EQ(e.file_size(), j.files[i].size, << e.path());
        all += j.files[i].content;
        ++i;
    }
    VP_EQ(i, j.files.size(), << "files in the storage");
    return all;
}
inline void require_sums(const job& j, const dt::file_storage& st)
{
    std::size_t i = 0;
    std::vector<const file*> real;
    for (auto& f : j.files) if (f.k != kind::padding) real.push_back(&f);
    for (const auto& e : st) {
        if (e.is_padding_file()) { VP_REQUIRE(e.checksums().empty() && !e.last_modified_time(), << "checksum or time of padding"); continue; }
        const auto& f = *real.at(i++);
        if (f.k != kind::regular) { VP_REQUIRE(e.checksums().empty() && !e.last_modified_time(), << "checksum or time of the symlink " << f.path); continue; }
        VP_REQUIRE(e.last_modified_time() == fs::last_write_time(j.root / f.path), << "modification time of " << f.path);
        for (auto* a : j.sums) {
            const auto* c = e.get_checksum(a->name);
            VP_REQUIRE(c != nullptr, << "no " << a->name << " of " << f.path << " (" << f.size << " bytes)");
            VP_EQ(ref::hex(ref::str(c->value())), ref::hex(ref::digest(*a, f.content)), << a->name << " of " << f.path << " (" << f.size << " bytes)");
        }
        VP_EQ(e.checksums().size(), j.sums.size(), << f.path);
    }
}
inline void require_v1(const job& j, const dt::file_storage& st, bool same_padding)
{
    const auto want = v1_pieces(stream(j, st, same_padding), j.piece_size);
    VP_EQ(st.piece_count(), want.size());
    VP_EQ(st.pieces().size(), want.size());
    for (std::size_t i = 0; i < want.size(); ++i)
        VP_EQ(ref::hex(ref::str(st.pieces()[i])), ref::hex(want[i]), << "v1 piece " << i << " of " << want.size());
}
inline void require_v2(const job& j, const dt::file_storage& st)
{
    std::size_t i = 0;
    std::vector<const file*> real;
    for (auto& f : j.files) if (f.k != kind::padding) real.push_back(&f);
    for (const auto& e : st) {
        if (e.is_padding_file()) continue;
        const auto& f = *real.at(i++);
        if (f.size == 0) { VP_REQUIRE(!e.has_v2_data(), << "hashes for " << f.path << " without data"); continue; }
        const auto want = v2(f.content, j.piece_size);
        VP_REQUIRE(e.has_v2_data(), << "no pieces root for " << f.path);
        VP_EQ(ref::hex(ref::str(e.pieces_root())), ref::hex(want.root), << "pieces root of " << f.path << ", " << f.size << " bytes");
        VP_EQ(e.piece_layer().size(), want.layer.size(), << f.path << ", " << f.size << " bytes");
        for (std::size_t k = 0; k < want.layer.size(); ++k)
            VP_EQ(ref::hex(ref::str(e.piece_layer()[k])), ref::hex(want.layer[k]), << "layer hash " << k << " of " << f.path);
    }
}
} // namespace dk
