// C23 hashing and verifying hold only a bounded part of the files in memory, whatever their size.
#include "disk_gen.hpp"
#include "dottorrent/storage_verifier.hpp"

namespace dt = dottorrent;
namespace fs = std::filesystem;
const char* const vp::rule = "a case is files of up to 24 MB in total, a protocol, piece size, read block size, memory limit, thread count and checksums, hashed, verified, or cancelled on the way, with the peak of allocated memory measured; "
    "non-trivial: the files are at least twice as large as the memory the operation may use";

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
extern "C" std::size_t __sanitizer_get_allocated_size(const volatile void*);

namespace {
std::atomic<long long> live{0}, peak{0};
void on_malloc(const volatile void* p, std::size_t n)
{
    if (!p) return;
    const auto now = live.fetch_add(static_cast<long long>(n), std::memory_order_relaxed) + static_cast<long long>(n);
    auto m = peak.load(std::memory_order_relaxed);
    while (m < now && !peak.compare_exchange_weak(m, now, std::memory_order_relaxed)) { }
}
void on_free(const volatile void* p) { if (p) live.fetch_sub(static_cast<long long>(__sanitizer_get_allocated_size(p)), std::memory_order_relaxed); }
void measure() { static const bool once = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true); (void)once; }
}

void vp::property(gen& g)
{
    measure();
    const auto root = dk::fresh() / "root";
    fs::create_directories(root);
    std::vector<std::size_t> sizes;
    std::size_t left = 24u << 20;
    for (auto n = 1 + g.size(20); n; --n) {
        auto s = std::min<std::size_t>(left, g.weighted({2, 3, 1}) == 0 ? g.draw(200000) : g.draw(24u << 20));
        if (g.chance(30)) s = s / 65536 * 65536;
        left -= s;
        sizes.push_back(s);
        const auto p = root / ("f" + std::to_string(sizes.size()));
        { std::ofstream o(p); }
        fs::resize_file(p, s);
    }
    std::size_t total = 0; for (auto s : sizes) total += s;
    const auto piece = std::size_t(16384) << g.weighted({6, 3, 2, 1});
    std::optional<std::size_t> block, memory;
    if (g.chance(75)) block = g.weighted({3, 2}) == 0 ? 1 + g.draw(300000) : piece * (1 + g.draw(8));
    if (g.chance(75)) memory = g.draw(2) == 0 ? g.draw(4u << 20) : g.draw(500000);
    const auto threads = 1 + g.size(7);
    const auto protocol = g.pick({dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid});
    const bool multi = g.boolean();
    dk::job sums; if (g.chance(40)) dk::choose_sums(g, sums);
    const auto blk = (std::max<std::size_t>(piece, block.value_or(
#ifdef DOTTORRENT_USE_ISAL
        16 * piece
#else
        1 << 20
#endif
        )) + piece - 1) / piece * piece;
    const auto allowed = memory ? std::max(*memory, 4 * blk) : std::max<std::size_t>(4, 4 * threads) * blk;
    const bool verify = g.boolean(), cancel = g.chance(20);
    g.note() << (verify ? "verify" : "hash") << (cancel ? " and cancel" : "") << ", protocol " << static_cast<int>(protocol) << ", piece " << piece << ", block " << (block ? std::to_string(*block) : "default") << ", memory " << (memory ? std::to_string(*memory) : "default")
        << ", threads " << threads << ", " << sums.sums.size() << " checksums, " << sizes.size() << " files, " << total << " bytes, allowed " << allowed << "; ";
    g.nontrivial(total >= 2 * allowed);
    g.label(verify ? "verify" : "hash"); g.label("protocol " + std::to_string(static_cast<int>(protocol))); if (cancel) g.label("cancelled"); if (total >= 8 * allowed) g.label("eight times the allowed memory");

    dt::file_storage st;
    st.set_root_directory(root);
    for (std::size_t i = 0; i < sizes.size(); ++i) st.add_file(dt::file_entry("f" + std::to_string(i + 1), sizes[i]));
    st.set_file_mode(dt::file_mode::multi);
    st.set_piece_size(piece);
    auto bounded = [&](auto op, const char* what, std::size_t hashers) {
        const auto before = live.load();
        peak = before;
        op();
        const auto used = static_cast<std::size_t>(std::max(0ll, peak.load() - before));
        // what grows with the number of pieces, files and threads, not with their content
        const auto slack = 300000 + 400 * (total / 16384) + 3000 * sizes.size() + 20000 * threads + 20000 * hashers;
        g.label("reached " + std::to_string(used * 4 / (allowed + slack) * 25) + "% of the bound");
        if (g.replaying()) g.note() << what << " used " << used << " of " << allowed << " + " << slack << "; ";
        VP_REQUIRE(used <= allowed + slack, << what << " held " << used << " bytes, allowed are " << allowed << " for data and " << slack << " for the rest");
    };
    auto hash = [&] {
        dt::storage_hasher_options o;
        o.protocol_version = protocol; o.min_io_block_size = block; o.max_memory = memory; o.threads = threads; o.enable_multi_buffer_hashing = multi;
        for (auto* a : sums.sums) o.checksums.insert(a->f);
        dt::storage_hasher h(st, o);
        h.start();
        if (cancel && !verify) { while (h.bytes_read() < total / 3) std::this_thread::yield(); h.cancel(); }
        else h.wait();
    };
    bounded(hash, "hashing", sums.sums.size());
    if (!verify) return;
    bounded([&] {
        dt::storage_verifier_options o;
        o.protocol_version = protocol; o.min_io_block_size = block; o.max_memory = memory; o.threads = threads; o.enable_multi_buffer_hashing = multi;
        dt::storage_verifier v(st, o);
        v.start();
        if (cancel) { while (v.bytes_read() < total / 3) std::this_thread::yield(); v.cancel(); }
        else v.wait();
    }, "verifying", 0);
}
