// C15 creating v1 piece hashes and checksums from files on disk, against one-shot reference digests of the concatenated content.
#include "disk_gen.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a directory of 1-10 files (sizes around 16 KiB blocks, pieces and read blocks, empty files, symlinks, padding files), a piece size, read block size, memory limit, thread count and set of checksums, hashed for v1; "
    "non-trivial: at least two pieces and at least two files with data, or a checksum of a file";

void vp::property(gen& g)
{
    auto j = dk::generate(g, true);
    dk::choose_sums(g, j);
    dk::show(g, j);
    j.auto_piece = g.chance(6);
    dt::file_storage st;
    dk::fill(j, st);
    if (g.chance(8)) {   // hashed before, then changed
        dt::storage_hasher before(st, dk::options(j, dt::protocol::v1));
        before.start(); before.wait();
        if (g.boolean()) {   // damaged since
            for (std::size_t i = 0; i < st.piece_count(); ++i) if (g.boolean()) st.set_piece_hash(i, dt::sha1_hash(std::string_view(ref::sha1(std::to_string(i)))));
            g.label("other hashes before");
        }
        dk::adopt_piece_size(g, j, st);
        j.auto_piece = false;
        dk::rewrite(g, j);
        j.threads = 1 + g.draw(3);
        g.label("hashed again"); g.note() << "hashed again after changes; ";
    }
    dt::storage_hasher h(st, dk::options(j, dt::protocol::v1));
    VP_REQUIRE(!h.started() && !h.done());
    dk::adopt_piece_size(g, j, st);
    h.start();
    h.wait();
    VP_REQUIRE(h.done() && !h.running() && !h.cancelled());
    dk::require_v1(j, st, true);
    dk::require_sums(j, st);
    std::size_t data = 0, total = 0;
    for (auto& f : j.files) { data += f.k == dk::kind::regular && f.size; total += f.size; }
    VP_EQ(h.bytes_done(), total);
    if (total) VP_EQ(st.protocol(), data ? dt::protocol::v1 : st.protocol());
    for (const auto& e : st) VP_REQUIRE(!e.has_v2_data(), << e.path());
    g.nontrivial((st.piece_count() > 1 && data > 1) || (!j.sums.empty() && data));
}
