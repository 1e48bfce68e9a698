// C17 verifying files on disk against a torrent finds exactly the pieces that differ.
#include "disk_gen.hpp"
#include "dottorrent/metafile_parsing.hpp"
#include "dottorrent/metafile_serialization.hpp"
#include "dottorrent/storage_verifier.hpp"

namespace dt = dottorrent;
namespace fs = std::filesystem;
const char* const vp::rule = "a case is a directory hashed for v1, v2 or hybrid, optionally written to and read from a torrent file, then damaged (bytes changed, files truncated, extended, removed, exchanged) and verified with a read block size, memory limit and thread count; "
    "non-trivial: at least two pieces, of which at least one has to be found damaged";

namespace {
/// content on disk after the damage; nullopt: no such file
using on_disk = std::vector<std::optional<std::string>>;
bool same(const on_disk& now, const dk::job& j, std::size_t f, std::size_t from, std::size_t to)
{
    if (from >= to) return true;
    const auto& was = j.files[f].content;
    return now[f] && now[f]->size() >= to && std::string_view(*now[f]).substr(from, to - from) == std::string_view(was).substr(from, to - from);
}
}

void vp::property(gen& g)
{
    const auto made = g.pick({dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid});
    auto j = dk::generate(g, made == dt::protocol::v1);
    dk::show(g, j);
    g.note() << (made == dt::protocol::v1 ? "v1" : made == dt::protocol::v2 ? "v2" : "hybrid") << "; ";
    dt::metafile m;
    dk::fill(j, m.storage());
    {
        dt::storage_hasher h(m.storage(), dk::options(j, made));
        h.start();
        h.wait();
    }
    std::size_t total = 0;
    for (auto& f : j.files) total += f.k == dk::kind::regular ? f.size : 0;
    if (total == 0) throw vp::discard{};
    std::optional<dt::metafile> parsed;
    if (g.chance(40)) {
        if (!j.single) m.set_name("root");
        parsed.emplace(dt::read_metafile(std::string_view(dt::write_metafile(m, made))));
        parsed->storage().set_root_directory(j.root);
        g.label("read from a torrent file");
        g.note() << "from torrent file; ";
        if (j.single) g.label("single-file torrent");
    }
    dt::file_storage& st = parsed ? parsed->storage() : m.storage();

    // --- damage
    on_disk now;
    for (auto& f : j.files) now.push_back(f.k == dk::kind::regular ? std::optional(f.content) : std::nullopt);
    const auto damages = g.weighted({2, 4, 3, 2, 1});
    for (std::size_t d = 0; d < damages; ++d) {
        const auto i = g.draw(j.files.size() - 1);
        if (j.files[i].k != dk::kind::regular || !now[i]) continue;
        auto& c = now[i];
        switch (g.weighted({5, 2, 2, 2, 1})) {
        case 0:
            if (c->empty()) break;
            { auto at = g.weighted({3, 1, 1}); auto p = at == 0 ? g.draw(c->size() - 1) : at == 1 ? 0 : c->size() - 1;
              (*c)[p] = static_cast<char>((*c)[p] ^ (1u << g.draw(7))); if ((*c)[p] == 0) (*c)[p] = '\xff'; g.note() << "change byte " << p << " of " << i << "; "; g.label("byte changed"); }
            break;
        case 1: c.reset(); g.note() << "remove " << i << "; "; g.label("file removed"); break;
        case 2: c->resize(g.boolean() ? g.draw(c->size()) : c->size() / j.piece_size * j.piece_size); g.note() << "truncate " << i << " to " << c->size() << "; "; g.label("file truncated"); break;
        case 3: *c += dk::content(1 + g.size(40000), 5); g.note() << "extend " << i << " to " << c->size() << "; "; g.label("file extended"); break;
        default: {
            const auto k = g.draw(j.files.size() - 1);
            if (j.files[k].k == dk::kind::regular && now[k]) { std::swap(now[i], now[k]); g.note() << "exchange " << i << " and " << k << "; "; g.label("files exchanged"); }
        } }
    }
    for (std::size_t i = 0; i < j.files.size(); ++i) {
        if (j.files[i].k != dk::kind::regular || now[i] == j.files[i].content) continue;
        if (now[i]) dk::write(j.root / j.files[i].path, *now[i]); else fs::remove(j.root / j.files[i].path);
    }

    // --- verify
    dt::storage_verifier_options o;
    o.protocol_version = made == dt::protocol::hybrid && g.boolean() ? dt::protocol::v1 : g.boolean() ? made : dt::protocol::none;
    const bool v1 = made == dt::protocol::v1 || o.protocol_version == dt::protocol::v1;
    o.min_io_block_size = j.block; o.max_memory = j.memory; o.threads = j.threads; o.enable_multi_buffer_hashing = j.multi_buffer;
    g.label(v1 ? "verified as v1" : "verified as v2");
    g.note() << "verify as " << (v1 ? "v1" : "v2");
    dt::storage_verifier v(st, o);
    v.start();
    v.wait();
    VP_REQUIRE(v.done() && !v.running() && !v.cancelled());

    // the pieces of each file, in the order of the torrent
    std::vector<std::uint8_t> want;
    struct range { std::size_t first, last; };
    std::vector<range> ranges;
    std::vector<std::ptrdiff_t> origin;   // the file of an entry, or -1 for padding
    for (const auto& e : st) {
        origin.push_back(-1);
        if (e.is_padding_file()) continue;
        for (std::size_t i = 0; i < j.files.size(); ++i) if (j.files[i].k != dk::kind::padding && e.path() == j.files[i].path) origin.back() = static_cast<std::ptrdiff_t>(i);
        VP_REQUIRE(origin.back() >= 0, << e.path() << " is none of the files");
        VP_EQ(e.file_size(), j.files[origin.back()].size, << e.path());
    }
    if (v1) {
        std::size_t offset = 0;
        std::vector<std::size_t> starts;
        for (const auto& e : st) { starts.push_back(offset); offset += e.file_size(); }
        for (std::size_t p = 0; p * j.piece_size < offset; ++p) {
            const auto lo = p * j.piece_size, hi = std::min(offset, lo + j.piece_size);
            bool ok = true;
            for (std::size_t k = 0; k < starts.size(); ++k) {
                if (origin[k] < 0) continue;
                const auto a = std::max(lo, starts[k]), b = std::min(hi, starts[k] + st.at(k).file_size());
                if (a < b) ok = ok && same(now, j, origin[k], a - starts[k], b - starts[k]);
            }
            want.push_back(ok);
        }
        for (std::size_t k = 0; k < starts.size(); ++k) {
            const auto n = st.at(k).file_size();
            if (n) ranges.push_back({starts[k] / j.piece_size, (starts[k] + n - 1) / j.piece_size + 1}); else ranges.push_back({0, 0});
        }
    }
    else for (std::size_t k = 0; k < origin.size(); ++k) {
        const auto first = want.size();
        const auto n = st.at(k).file_size();
        if (origin[k] >= 0) for (std::size_t a = 0; a < n; a += j.piece_size) want.push_back(same(now, j, origin[k], a, std::min(n, a + j.piece_size)));
        ranges.push_back({first, want.size()});
    }
    g.nontrivial(want.size() > 1 && std::count(want.begin(), want.end(), 0) > 0);
    const auto& got = v.result();
    VP_EQ(got.size(), want.size(), << "number of verified pieces");
    for (std::size_t i = 0; i < want.size(); ++i) VP_EQ(int(got[i]), int(want[i]), << "piece " << i << " of " << want.size());
    for (std::size_t k = 0; k < ranges.size(); ++k) {
        auto [a, b] = ranges[k];
        const double p = a == b ? 100.0 : 100.0 * double(std::count(want.begin() + a, want.begin() + b, 1)) / double(b - a);
        VP_REQUIRE(std::abs(v.percentage(k) - p) < 1e-6, << "percentage of entry " << k << " " << st.at(k).path() << ": " << v.percentage(k) << " want " << p);
        if (origin[k] >= 0) VP_REQUIRE(std::abs(v.percentage(st.at(k)) - p) < 1e-6);
    }
}
