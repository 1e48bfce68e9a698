// C18 hashing and verifying always come to an end: progress, cancellation at any moment, unreadable data, misuse.
#include "disk_gen.hpp"
#include <functional>
#include "dottorrent/storage_verifier.hpp"

namespace dt = dottorrent;
namespace fs = std::filesystem;
const char* const vp::rule = "a case is a directory and a hasher or verifier for one protocol that is polled for progress and then waited for, cancelled after a random number of polls, dropped unstarted, or meets a file that is missing, shortened or unreadable; "
    "non-trivial: cancelled while running, or an error while reading, or at least two progress polls before the end";

namespace {
template <typename F> bool refuses(F&& f)
{
    try { f(); } catch (const std::runtime_error&) { return true; }
    return false;
}
struct poll_state { std::size_t done = 0, read = 0, hashed = 0; int count = 0; };
template <typename W> void poll(W& w, const dt::file_storage& st, std::size_t total, poll_state& s)
{
    const auto read = w.bytes_read(), hashed = w.bytes_hashed();
    VP_REQUIRE(read >= s.read && hashed >= s.hashed, << "bytes read or hashed went back");
    s.read = read; s.hashed = hashed;
    const auto d = w.bytes_done();
    VP_REQUIRE(d >= s.done, << "bytes_done went back from " << s.done << " to " << d);
    VP_REQUIRE(d <= total, << "bytes_done " << d << " of " << total);
    s.done = d;
    const auto p = w.current_file_progress();
    VP_REQUIRE(p.file_index < st.file_count(), << "current file " << p.file_index << " of " << st.file_count());
    VP_REQUIRE(p.bytes_hashed <= st.at(p.file_index).file_size(), << p.bytes_hashed << " bytes of file " << p.file_index << " with " << st.at(p.file_index).file_size());
    ++s.count;
}
enum class fault { none, removed, shortened, directory };
using action = std::function<void()>;

template <typename W> void drive(vp::gen& g, W& w, const dk::job& j, const dt::file_storage& st, std::size_t total, fault f, bool verify, dt::protocol p, const action& meanwhile)
{
    poll_state s;
    struct guard { W& w; ~guard() { if (w.running()) w.cancel(); } } stop {w};   // a failed requirement leaves a running worker
    VP_REQUIRE(!w.started() && !w.running() && !w.done() && !w.cancelled());
    VP_REQUIRE(&w.storage() == &st && &std::as_const(w).storage() == &st && w.protocol() == p, << "storage and protocol of the worker");
    VP_EQ(w.bytes_read() + w.bytes_done() + w.bytes_hashed(), std::size_t(0));
    if (st.file_count()) poll(w, st, total, s);
    VP_REQUIRE(refuses([&] { w.wait(); }), << "wait before start");
    const auto end = g.weighted({5, 5, 1, 1});
    if (end == 2) { g.label("never started"); g.note() << "never started"; return; }
    if (end == 3) {
        g.label("cancelled before start"); g.note() << "cancelled before start";
        w.cancel();
        VP_REQUIRE(w.cancelled() && w.done());
        VP_REQUIRE(refuses([&] { w.start(); }) && refuses([&] { w.cancel(); }));
        return;
    }
    const auto polls = g.size(60);
    const auto spin = g.draw(3) == 0 ? 0 : g.draw(3000);
    w.start();
    VP_REQUIRE(w.started() && w.running() && !w.done());
    const auto moment = meanwhile ? g.draw(polls) : 0;
    for (std::uint64_t i = 0; i < polls; ++i) {
        if (meanwhile && i == moment) meanwhile();
        poll(w, st, total, s);
        for (volatile std::uint64_t k = 0; k < spin; ++k) { }
    }
    if (meanwhile && moment == polls) meanwhile();
    g.nontrivial(s.count > 2);
    if (g.chance(30)) VP_REQUIRE(refuses([&] { w.start(); }), << "started again while running");
    if (end == 1) {
        g.label("cancelled"); g.note() << "cancelled after " << polls << " polls";
        g.nontrivial(s.done < total);
        if (s.done < total) g.label("cancelled before all data was processed");
        w.cancel();
        VP_REQUIRE(w.cancelled() && w.done() && !w.running());
    }
    else {
        const bool error_expected = f == fault::directory || (!verify && f != fault::none);
        g.note() << "waited for";
        bool error = false;
        try { w.wait(); } catch (const std::exception& e) { error = true; g.note() << ", error: " << e.what(); }
        if (meanwhile) g.label(error ? "error while the files changed" : "no error while the files changed");   // depends on what was read before
        else VP_EQ(error, error_expected, << "error while reading");
        VP_REQUIRE(w.done() && !w.running());
        if (error) g.label("error while reading");
        else {
            poll(w, st, total, s);
            VP_EQ(w.bytes_done(), total);
            std::size_t data = 0, all = 0;
            for (auto& e : st) { all += e.file_size(); data += e.is_padding_file() ? 0 : e.file_size(); }
            VP_REQUIRE(w.bytes_read() <= all, << w.bytes_read() << " bytes read of " << all);
            if (f == fault::none && !meanwhile) VP_REQUIRE(w.bytes_read() >= data, << w.bytes_read() << " bytes read of " << data);
            VP_REQUIRE(!w.cancelled());
        }
        g.nontrivial(error);
    }
    VP_REQUIRE(refuses([&] { w.start(); }) && refuses([&] { w.cancel(); }) && refuses([&] { w.wait(); }), << "used after the end");
}
}

void vp::property(gen& g)
{
    const auto p = g.pick({dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid});
    const bool verify = g.chance(40);
    auto j = dk::generate(g, p == dt::protocol::v1 && g.boolean(), true, g.boolean() ? 1200000 : 300000);
    if (g.draw(2999) == 2999) {
        // takes a second or longer
        dk::file big;
        big.path = "big"; big.size = (180u + g.draw(120)) << 20;
        std::ofstream(j.root / big.path).close();
        fs::resize_file(j.root / big.path, big.size);
        j.files.push_back(big); j.single = false; j.threads = 1; j.piece_size = 1 << 20; j.memory.reset();
        g.label("takes long");
    }
    if (!verify) dk::choose_sums(g, j);
    dk::show(g, j);
    g.note() << (verify ? "verify " : "hash ") << (p == dt::protocol::v1 ? "v1" : p == dt::protocol::v2 ? "v2" : "hybrid") << "; ";
    std::size_t data = 0, total = 0;
    for (auto& f : j.files) { data += f.k == dk::kind::regular ? f.size : 0; total += f.size; }
    auto f = fault::none;
    std::optional<std::size_t> victim;
    if (data && g.chance(30)) {
        const auto first = g.draw(j.files.size() - 1);
        for (std::size_t k = 0; k < j.files.size() && !victim; ++k) {
            auto i = (first + k) % j.files.size();
            if (j.files[i].k == dk::kind::regular && j.files[i].size) victim = i;
        }
        f = g.pick({fault::removed, fault::shortened, fault::directory});
    }
    dt::file_storage st;
    dk::fill(j, st);
    if (verify) {
        if (data == 0) throw vp::discard{};
        dt::storage_hasher h(st, dk::options(j, p));
        h.start(); h.wait();
    }
    auto spoil = [&] {
        if (!victim) return;
        auto path = j.root / j.files[*victim].path;
        g.note() << (f == fault::removed ? "removed " : f == fault::shortened ? "shortened " : "directory instead of ") << j.files[*victim].path << "; ";
        if (f == fault::shortened) fs::resize_file(path, j.files[*victim].size - 1);
        else { fs::remove(path); if (f == fault::directory) fs::create_directory(path); }
    };
    const bool later = victim && g.chance(30);
    const action meanwhile = later ? action([&] { spoil(); }) : action{};
    if (later) g.label("files changed while at work");
    if (verify) {
        if (!later) spoil();
        dt::storage_verifier_options o;
        o.min_io_block_size = j.block; o.max_memory = j.memory; o.threads = j.threads; o.enable_multi_buffer_hashing = j.multi_buffer; o.protocol_version = p;
        dt::storage_verifier v(st, o);
        drive(g, v, j, st, p == dt::protocol::v1 ? total : data, f, true, p, meanwhile);
    }
    else if (g.chance(4)) {
        // a checksum the crypto library cannot compute: told to the caller, not a terminated program
        auto o = dk::options(j, p);
        std::vector<dt::hash_function> refused {dt::hash_function::none, dt::hash_function::md2};
        for (auto& a : ref::algorithms()) if (!ref::available(a)) refused.push_back(a.f);
        o.checksums.insert(refused[g.draw(refused.size() - 1)]);
        g.label("checksum that cannot be computed"); g.note() << "checksum that cannot be computed";
        bool told = false;
        try { dt::storage_hasher h(st, o); h.start(); h.wait(); } catch (const std::exception&) { told = true; }
        VP_REQUIRE(told, << "a checksum that cannot be computed was accepted");
        g.nontrivial(true);
    }
    else {
        dt::storage_hasher h(st, dk::options(j, p));
        if (!later) spoil();
        drive(g, h, j, st, p == dt::protocol::v1 ? total : data, f, false, p, meanwhile);
    }
}
