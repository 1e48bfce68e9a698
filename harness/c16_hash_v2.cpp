// C16 creating v2 and hybrid hashes and checksums from files on disk, against reference merkle trees and v1 pieces of the padded stream.
#include "disk_gen.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a directory of 1-10 files (sizes around 16 KiB blocks, pieces and read blocks, empty files, symlinks), a piece size, read block size, memory limit, thread count and set of checksums, hashed for v2 or hybrid; "
    "non-trivial: a file with more than one 16 KiB block";

void vp::property(gen& g)
{
    const bool hybrid = g.boolean();
    auto j = dk::generate(g, false);
    if (hybrid && g.chance(25)) dk::pad(g, j);
    dk::choose_sums(g, j);
    dk::show(g, j);
    g.note() << (hybrid ? "hybrid; " : "v2; ");
    g.label(hybrid ? "hybrid" : "v2");
    const auto p = hybrid ? dt::protocol::hybrid : dt::protocol::v2;
    j.auto_piece = !j.padded && g.chance(6);
    dt::file_storage st;
    dk::fill(j, st);
    std::optional<dt::protocol> earlier;
    if (g.chance(8)) {   // hashed before, then changed
        earlier = g.weighted({3, 1, 1}) == 0 ? p : g.pick({dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid});
        dt::storage_hasher before(st, dk::options(j, *earlier));
        before.start(); before.wait();
        if (*earlier != p) g.label("hashed before for another protocol");
        dk::adopt_piece_size(g, j, st);
        j.auto_piece = false;
        dk::rewrite(g, j);
        j.threads = 1 + g.draw(3);
        g.label("hashed again"); g.note() << "hashed again after changes; ";
    }
    if (g.chance(5)) for (auto& e : st) {   // hashes of something else, from an older torrent
        if (e.is_padding_file() || e.file_size() == 0 || g.boolean()) continue;
        auto other = [&] { return dt::sha256_hash(std::string_view(ref::sha256(std::to_string(g.draw(1000))))); };
        std::vector<dt::sha256_hash> layer;
        for (auto n = g.draw(4); n > 0; --n) layer.push_back(other());
        e.set_pieces_root(other());
        e.set_piece_layer(layer);
        g.label("other hashes before");
    }
    if (hybrid && !j.auto_piece && g.chance(20)) dt::optimize_alignment(st);
    dt::storage_hasher h(st, dk::options(j, p));
    dk::adopt_piece_size(g, j, st);
    h.start();
    h.wait();
    VP_REQUIRE(h.done() && !h.running() && !h.cancelled());
    dk::require_v2(j, st);
    dk::require_sums(j, st);
    std::size_t total = 0;
    for (auto& f : j.files) { total += f.k == dk::kind::padding ? 0 : f.size; g.nontrivial(f.size > 16384); }
    VP_EQ(h.bytes_done(), total);
    if (hybrid) {
        dk::require_v1(j, st, false);
        std::size_t offset = 0;
        for (const auto& e : st) {
            if (!e.is_padding_file() && e.file_size()) VP_EQ(offset % j.piece_size, std::size_t(0), << e.path() << " is not aligned");
            offset += e.file_size();
        }
    }
    else if (!earlier || *earlier == dt::protocol::v2) {
        VP_REQUIRE(st.pieces().empty());
        dk::stream(j, st, true);
    }
    // the layers lead to the roots, and a changed layer or root does not
    auto verified = [&] { std::vector<bool> r; dt::verify_piece_layers(st, std::back_inserter(r)); return r; };
    auto want = std::vector<bool>(st.file_count(), true);
    VP_REQUIRE(verified() == want, << "piece layers do not verify");
    std::vector<std::size_t> with;
    for (std::size_t i = 0; i < st.file_count(); ++i) if (st[i].has_v2_data() && !st[i].piece_layer().empty()) with.push_back(i);
    if (!with.empty() && g.chance(30)) {
        const auto i = g.pick(with);
        std::vector<dt::sha256_hash> layer(st[i].piece_layer().begin(), st[i].piece_layer().end());
        const auto k = g.draw(layer.size() - 1);
        if (g.chance(20)) { st[i].set_piece_layer({}); g.label("missing piece layer"); }
        else if (g.boolean()) { auto root = std::string(std::string_view(st[i].pieces_root())); root[g.draw(31)] ^= static_cast<char>(1 << g.draw(7)); st[i].set_pieces_root(dt::sha256_hash(std::string_view(root))); }
        else { auto h = std::string(std::string_view(layer[k])); h[g.draw(31)] ^= static_cast<char>(1 << g.draw(7)); layer[k] = dt::sha256_hash(std::string_view(h)); st[i].set_piece_layer(layer); }
        want[i] = false;
        VP_REQUIRE(verified() == want, << "a changed piece layer of file " << i << " is not noticed");
        g.label("changed piece layer");
    }
    if (total && (hybrid || !earlier || *earlier == dt::protocol::v2)) VP_EQ(st.protocol(), hybrid ? dt::protocol::hybrid : dt::protocol::v2);
}
