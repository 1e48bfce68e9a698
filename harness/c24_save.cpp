// C24 saving and writing: all of the torrent is stored or an error is reported, wherever the disk or stream fails.
#include "torrent_gen.hpp"
#include <sys/resource.h>
#include "dottorrent/metafile_serialization.hpp"

namespace dt = dottorrent;
namespace fs = std::filesystem;
const char* const vp::rule = "a case is a generated torrent that is saved to a file, written to a stream or read back, with a fault: the disk is full after any number of bytes, the path cannot be opened, the stream fails or throws after any number of bytes, "
    "the protocol is not one that can be written, the file is cut off; non-trivial: the fault hits after the first and before the last byte";

namespace {
/// writes to this process's files fail after that many bytes
struct disk_limit {
    rlimit old {};
    explicit disk_limit(std::optional<std::size_t> n)
    {
        ::getrlimit(RLIMIT_FSIZE, &old);
        if (n) { std::signal(SIGXFSZ, SIG_IGN); auto r = old; r.rlim_cur = *n; ::setrlimit(RLIMIT_FSIZE, &r); }
    }
    ~disk_limit() { ::setrlimit(RLIMIT_FSIZE, &old); std::signal(SIGXFSZ, SIG_DFL); }
};
struct failing_buf : std::streambuf {
    std::string text; std::size_t limit; bool throws; std::string input {}; 
    explicit failing_buf(std::size_t n, bool t) : limit(n), throws(t) { }
    int_type overflow(int_type c) override
    {
        if (c == traits_type::eof()) return 0;
        if (text.size() >= limit) { if (throws) throw std::runtime_error("broken stream"); return traits_type::eof(); }
        text += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        const auto k = std::min<std::size_t>(static_cast<std::size_t>(n), limit - text.size());
        text.append(s, k);
        if (k < static_cast<std::size_t>(n) && throws) throw std::runtime_error("broken stream");
        return static_cast<std::streamsize>(k);
    }
    int_type underflow() override { if (throws) throw std::runtime_error("broken stream"); return traits_type::eof(); }
    void feed(const std::string& s) { input = s.substr(0, limit); setg(input.data(), input.data(), input.data() + input.size()); }
};
std::string slurp(const fs::path& p) { std::ifstream in(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(in), {}); }
template <typename F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
}

void vp::property(gen& g)
{
    auto t = tg::generate(g);
    t.cross = false;
    const auto m = tg::build(t);
    const auto bytes = dt::write_metafile(m, t.protocol);
    g.note() << tg::show(t) << "; " << bytes.size() << " bytes; ";
    auto point = [&] { return g.weighted({3, 1, 1}) == 0 ? g.draw(bytes.size() - 1) : g.boolean() ? bytes.size() - 1 - g.draw(std::min<std::size_t>(20, bytes.size() - 1)) : g.draw(std::min<std::size_t>(20, bytes.size() - 1)); };
    const auto dir = vp::scratch() / "c24";
    fs::create_directories(dir);
    const auto path = dir / "x.torrent";
    fs::remove_all(path);
    const bool existing = g.boolean();
    const std::string previous(existing ? g.size(4000) : 0, 'p');
    if (existing) { std::ofstream o(path, std::ios::binary); o << previous; }

    switch (g.weighted({4, 2, 2, 4, 1, 3, 2})) {
    case 0: {
        const auto k = point();
        g.label("disk full"); g.note() << "disk full after " << k; g.nontrivial(k > 0);
        bool reported;
        { disk_limit l(k); reported = throws([&] { dt::save_metafile(path, m, t.protocol); }); }
        VP_REQUIRE(reported, << "no error although only " << slurp(path).size() << " of " << bytes.size() << " bytes were saved");
        break;
    }
    case 1: {
        g.label("enough space"); g.note() << "enough space";
        bool reported;
        { disk_limit l(bytes.size() + g.draw(1)); reported = throws([&] { dt::save_metafile(path, m, t.protocol); }); }
        VP_REQUIRE(!reported, << "an error although the torrent fits");
        VP_REQUIRE(slurp(path) == bytes, << "saved file differs from the torrent");
        break;
    }
    case 2: {
        fs::path bad;
        switch (g.draw(4)) {
        case 0: bad = dir / "missing" / "x"; break;
        case 1: bad = dir; break;
        case 2: { std::ofstream o(dir / "file"); } bad = dir / "file" / "x"; break;
        case 3: bad = dir / std::string(300, 'n'); break;
        default: bad = "/dev/full";
        }
        g.label("path that cannot be written"); g.note() << bad;
        VP_REQUIRE(throws([&] { dt::save_metafile(bad, m, t.protocol); }), << "no error for " << bad);
        VP_REQUIRE(throws([&] { dt::load_metafile(bad == "/dev/full" ? dir : bad); }), << "something was loaded from " << bad);
        break;
    }
    case 3: {
        const auto k = point(); const bool thrown = g.boolean(), json = g.chance(30);
        g.label(json ? "json to a failing stream" : "failing stream"); g.note() << "stream fails after " << k; g.nontrivial(k > 0);
        std::string whole = json ? dt::serialize_json(m, t.protocol) : bytes;
        failing_buf b(std::min(k, whole.size() - 1), thrown);
        std::ostream os(&b);
        if (g.boolean()) os.exceptions(std::ios::badbit);
        bool reported = throws([&] { if (json) dt::serialize_json_to(os, m, t.protocol); else dt::write_metafile_to(os, m, t.protocol); });
        VP_REQUIRE(reported || !os.good(), << "the stream took " << b.text.size() << " of " << whole.size() << " bytes and is still good");
        VP_REQUIRE(whole.starts_with(b.text), << "something else was written");
        // and a stream that works stays good
        failing_buf ok(whole.size(), thrown); std::ostream os2(&ok);
        if (json) dt::serialize_json_to(os2, m, t.protocol); else dt::write_metafile_to(os2, m, t.protocol);
        VP_REQUIRE(os2.good() && ok.text == whole);
        break;
    }
    case 4: {
        // nothing to write: the file that is there stays
        const auto p = g.pick({dt::protocol::none, static_cast<dt::protocol>(4), static_cast<dt::protocol>(7)});
        g.label("protocol that cannot be written"); g.note() << "protocol " << static_cast<int>(p); g.nontrivial(existing);
        VP_REQUIRE(throws([&] { dt::save_metafile(path, m, p); }));
        VP_REQUIRE(!existing || slurp(path) == previous, << "the existing file of " << previous.size() << " bytes now has " << slurp(path).size());
        std::ostringstream os;
        VP_REQUIRE(throws([&] { dt::write_metafile_to(os, m, p); }) && os.str().empty());
        VP_REQUIRE(throws([&] { dt::write_metafile(m, p); }));
        break;
    }
    case 5: {
        // torrents of other programs can end in any value, unknown keys included
        std::string bytes2 = bytes;
        if (g.chance(50)) {
            auto v = g.text(g.size(12), "abcde019:xyz");
            auto tail = std::to_string(v.size()) + ":" + v;
            switch (g.draw(3)) { case 0: break; case 1: tail = "i" + std::to_string(g.draw(100000)) + "e"; break; case 2: tail = "l" + tail + "e"; break; default: tail = "d1:a" + tail + "e"; }
            bytes2.insert(bytes2.size() - 1, "2:zz" + tail);
            g.label("cut off, unknown value at the end");
            VP_REQUIRE(!throws([&] { dt::read_metafile(std::string_view(bytes2)); }), << "the whole torrent is refused");
        }
        const auto& bytes = bytes2;
        const auto k = g.chance(25) ? bytes.size() - 1 - g.draw(1) : point(); const bool thrown = g.boolean();
        g.label("torrent cut off"); g.note() << "cut off after " << k << " of " << bytes.size(); g.nontrivial(k > 0);
        failing_buf b(k, thrown); b.feed(bytes);
        std::istream is(&b);
        VP_REQUIRE(throws([&] { dt::read_metafile(is); }), << "a torrent of " << k << " of " << bytes.size() << " bytes was read from a stream");
        { std::ofstream o(path, std::ios::binary | std::ios::trunc); o.write(bytes.data(), static_cast<std::streamsize>(k)); }
        VP_REQUIRE(throws([&] { dt::load_metafile(path); }), << "a torrent of " << k << " of " << bytes.size() << " bytes was loaded");
        VP_REQUIRE(throws([&] { dt::read_metafile(std::string_view(bytes).substr(0, k)); }), << "a torrent of " << k << " of " << bytes.size() << " bytes was read");
        VP_REQUIRE(throws([&] { dt::read_metafile(std::as_bytes(std::span(bytes)).first(k)); }), << "a torrent of " << k << " of " << bytes.size() << " bytes was read as bytes");
        break;
    }
    default: {
        g.label("missing file");
        fs::remove(path);
        VP_REQUIRE(throws([&] { dt::load_metafile(path); }));
        dt::save_metafile(path, m, t.protocol);
        VP_REQUIRE(dt::load_metafile(path) == dt::read_metafile(std::string_view(bytes)));
    } }
}
