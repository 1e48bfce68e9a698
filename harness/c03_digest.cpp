// C03 message digests: every algorithm, any chunking, any reuse history equals the one-shot digest.
#include "pbt.hpp"
#include "ref_digest.hpp"
#include <barrier>
#include <thread>
#include "dottorrent/hasher/factory.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a history of update / finalize operations over up to 4 live hashers of any supported algorithm, or of hashers in 2-4 threads; "
    "non-trivial: some message was fed in at least two non-empty pieces or a hasher was reused after a finalize";

namespace {
template <dt::hash_function F> void one_shot(const ref::algo& a, const std::string& msg)
{
    if (a.f != F) return;
    auto h = dt::make_hash<F>(std::span<const std::byte>(reinterpret_cast<const std::byte*>(msg.data()), msg.size()));
    VP_EQ(h.size(), a.size, << a.name);
    VP_EQ(ref::hex(ref::str(h)), ref::hex(ref::digest(a, msg)), << a.name << " one-shot");
    VP_EQ(h.hex_string(), ref::hex(ref::digest(a, msg)));
    VP_EQ(dt::hash_function_traits<F>::digest_size_bytes, a.size, << a.name);
    VP_EQ(dt::hash_function_traits<F>::digest_size_bits, a.size * 8, << a.name);
}
// the OpenSSL wrapper itself, with every algorithm it names, including the ones the library does not use
struct raw_algo { openssl::message_digest_algorithm f; const char* name; std::size_t size; };
const std::vector<raw_algo>& raw_algorithms()
{
    using a = openssl::message_digest_algorithm;
    static const std::vector<raw_algo> v = {
        {a::md4, "MD4", 16}, {a::md5, "MD5", 16}, {a::md5_sha1, "MD5-SHA1", 36}, {a::blake2b512, "BLAKE2B-512", 64},
        {a::blake2s256, "BLAKE2S-256", 32}, {a::sha1, "SHA1", 20}, {a::sha224, "SHA2-224", 28}, {a::sha256, "SHA2-256", 32},
        {a::sha384, "SHA2-384", 48}, {a::sha512, "SHA2-512", 64}, {a::sha512_224, "SHA2-512/224", 28}, {a::sha512_256, "SHA2-512/256", 32},
        {a::sha3_224, "SHA3-224", 28}, {a::sha3_256, "SHA3-256", 32}, {a::sha3_384, "SHA3-384", 48}, {a::sha3_512, "SHA3-512", 64},
        {a::shake128, "SHAKE-128", 16}, {a::shake256, "SHAKE-256", 32}, {a::ripemd160, "RIPEMD-160", 20}, {a::sm3, "SM3", 32},
        {a::md2, "MD2", 16}, {a::mdc2, "MDC2", 16}, {a::whirlpool, "WHIRLPOOL", 64}};
    return v;
}
void raw_history(vp::gen& g)
{
    const auto& a = raw_algorithms()[g.draw(raw_algorithms().size() - 1)];
    ref::algo r {dt::hash_function::none, a.name, a.name, a.size};
    g.note() << "openssl::message_digest " << a.name << "; ";
    std::optional<openssl::message_digest> d;
    std::string_view category;
    try { d.emplace(a.f); } catch (const std::system_error& e) { category = e.code().category().name(); }
    if (!ref::available(r)) {
        VP_REQUIRE(!d.has_value(), << a.name);
        VP_EQ(category, std::string_view(openssl::openssl_crypto_category().name()));
        return;
    }
    VP_REQUIRE(d.has_value(), << a.name);
    g.label(std::string("wrapper ") + a.name);
    std::string msg; int parts = 0;
    auto ops = 1 + g.size(10);
    for (std::size_t i = 0; i < ops; ++i) {
        switch (g.weighted({6, 2, 2})) {
        case 0: { auto b = g.blob(g.size(300)); d->update(std::as_bytes(std::span(b))); msg += b; parts += !b.empty(); g.note() << "update " << b.size() << "; "; break; }
        case 1: d->reset(); msg.clear(); parts = 0; g.label("reset in the middle of a message"); g.note() << "reset; "; break;
        default: {
            std::unique_ptr<std::byte[]> out(new std::byte[a.size]);
            d->finalize_to(std::span<std::byte>(out.get(), a.size));
            VP_EQ(ref::hex(std::string_view(reinterpret_cast<const char*>(out.get()), a.size)), ref::hex(ref::digest(r, msg)), << a.name);
            d->reset(); g.nontrivial(parts > 1); msg.clear(); parts = 0; g.note() << "finalize; ";
        } }
    }
    std::unique_ptr<std::byte[]> out(new std::byte[a.size]);
    d->finalize_to(std::span<std::byte>(out.get(), a.size));
    VP_EQ(ref::hex(std::string_view(reinterpret_cast<const char*>(out.get()), a.size)), ref::hex(ref::digest(r, msg)), << a.name);
}
// hashers that belong to different threads do not disturb each other
void in_threads(vp::gen& g)
{
    const auto threads = 2 + g.draw(2), rounds = 1 + g.draw(5);
    struct message { const ref::algo* a; std::vector<std::string> parts; std::string want, got; bool fresh; };
    std::vector<std::vector<message>> work(threads);
    const bool same = g.boolean();
    const ref::algo* common = nullptr;
    for (auto& w : work) for (std::size_t r = 0; r < rounds; ++r) {
        message m;
        do m.a = &ref::algorithms()[g.draw(ref::algorithms().size() - 1)]; while (!ref::available(*m.a));
        if (same) { if (!common) common = m.a; m.a = common; }
        std::string all;
        for (auto n = g.draw(3); n > 0; --n) { m.parts.push_back(g.blob(g.chance(20) ? g.draw(20000) : g.size(300))); all += m.parts.back(); }
        m.want = ref::digest(*m.a, all); m.fresh = g.boolean();
        w.push_back(std::move(m));
    }
    g.note() << threads << " threads, " << rounds << " messages each" << (same ? std::string(", all ") + common->name : std::string());
    g.label("several threads"); g.nontrivial();
    std::barrier start(static_cast<std::ptrdiff_t>(threads));
    std::vector<std::thread> ts;
    for (auto& w : work) ts.emplace_back([&start, &w] {
        start.arrive_and_wait();
        std::unique_ptr<dt::single_buffer_hasher> h; const ref::algo* last = nullptr;
        for (auto& m : w) {
            if (m.fresh || last != m.a) { h = dt::make_hasher(m.a->f); last = m.a; }
            for (auto& p : m.parts) h->update(std::as_bytes(std::span(p)));
            m.got.resize(m.a->size);
            h->finalize_to(std::as_writable_bytes(std::span(m.got)));
        }
    });
    for (auto& t : ts) t.join();
    for (auto& w : work) for (auto& m : w) VP_EQ(ref::hex(m.got), ref::hex(m.want), << m.a->name << " while other threads were hashing");
}
struct live { std::unique_ptr<dt::single_buffer_hasher> h; const ref::algo* a; std::string msg; int pieces = 0; int finals = 0; };
}

void vp::property(gen& g)
{
    if (g.chance(15)) { raw_history(g); return; }
#ifdef VP_THREADS_ONLY
    in_threads(g); return;
#else
    if (g.chance(5)) { in_threads(g); return; }
#endif
    std::vector<live> hs;
    // only the functions of the supported set exist
    if (g.chance(2)) for (auto f : {dt::hash_function::none, dt::hash_function::md2}) {
        bool threw = false;
        try { dt::make_hasher(f); } catch (const std::invalid_argument&) { threw = true; }
        VP_REQUIRE(threw && !dt::hasher_supported_algorithms().contains(f));
        VP_EQ(dt::hasher_supported_algorithms().size(), ref::algorithms().size());
    }
    auto ops = 1 + g.size(24);
    for (std::size_t i = 0; i < ops; ++i) {
        auto op = hs.empty() ? 0 : g.weighted({2, 8, 4, 1});
        if (op == 0) {
            if (hs.size() == 4) continue;
            const ref::algo* a = &ref::algorithms()[g.draw(ref::algorithms().size() - 1)];
            const bool listed = dt::hasher_supported_algorithms().contains(a->f);
            VP_REQUIRE(listed, << a->name << " missing from the supported set");
            std::unique_ptr<dt::single_buffer_hasher> h;
            try { h = dt::make_hasher(a->f); } catch (const std::system_error&) { }
            g.note() << "new " << a->name << "; ";
            if (!ref::available(*a)) {
                // the crypto library here cannot compute it: creation must say so
                g.label("algorithm not provided by this libcrypto");
                VP_REQUIRE(h == nullptr, << a->name);
                continue;
            }
            VP_REQUIRE(h != nullptr, << "cannot create " << a->name);
            g.label(a->name);
            hs.push_back({std::move(h), a, "", 0, 0});
            continue;
        }
        auto& l = hs[g.draw(hs.size() - 1)];
        if (op == 1) {
            auto n = g.chance(1, 400) ? g.draw(5000000) : g.weighted({6, 3, 1}) == 0 ? g.size(200) : g.chance(20) ? g.draw(70000) : g.pick({0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 167, 168, 1000, 4096, 16384});
            auto data = g.blob(n);
            g.note() << "update " << l.a->name << " " << n << " bytes; ";
            std::unique_ptr<std::byte[]> exact(new std::byte[data.size() ? data.size() : 1]);
            std::memcpy(exact.get(), data.data(), data.size());
            if (g.chance(30)) l.h->update(std::string_view(reinterpret_cast<const char*>(exact.get()), data.size()));
            else l.h->update(std::span<const std::byte>(exact.get(), data.size()));
            l.msg += data;
            if (!data.empty()) ++l.pieces;
        }
        else if (op == 2) {
            // the destination is exactly as long as the digest: an overflow is a sanitizer report
            std::unique_ptr<std::byte[]> out(new std::byte[l.a->size]);
            l.h->finalize_to(std::span<std::byte>(out.get(), l.a->size));
            VP_EQ(ref::hex(std::string_view(reinterpret_cast<const char*>(out.get()), l.a->size)), ref::hex(ref::digest(*l.a, l.msg)),
                  << l.a->name << " after " << l.pieces << " updates, " << l.msg.size() << " bytes, " << l.finals << " earlier finalizes");
            g.note() << "finalize " << l.a->name << "; ";
            g.nontrivial(l.pieces > 1 || l.finals > 0);
            if (l.finals) g.label("reused after finalize");
            if (l.pieces > 1) g.label("multi-part message");
            l.msg.clear(); l.pieces = 0; ++l.finals;
        }
        else {
            const auto& a = *l.a; const auto& m = l.msg;
            one_shot<dt::hash_function::md4>(a, m); one_shot<dt::hash_function::md5>(a, m); one_shot<dt::hash_function::blake2b_512>(a, m);
            one_shot<dt::hash_function::blake2s_256>(a, m); one_shot<dt::hash_function::sha1>(a, m); one_shot<dt::hash_function::sha224>(a, m);
            one_shot<dt::hash_function::sha256>(a, m); one_shot<dt::hash_function::sha384>(a, m); one_shot<dt::hash_function::sha512>(a, m);
            one_shot<dt::hash_function::sha3_224>(a, m); one_shot<dt::hash_function::sha3_256>(a, m); one_shot<dt::hash_function::sha3_384>(a, m);
            one_shot<dt::hash_function::sha3_512>(a, m); one_shot<dt::hash_function::shake128>(a, m); one_shot<dt::hash_function::shake256>(a, m);
            one_shot<dt::hash_function::ripemd160>(a, m); one_shot<dt::hash_function::whirlpool>(a, m);
            g.label("one-shot");
        }
    }
    for (auto& l : hs) {
        std::unique_ptr<std::byte[]> out(new std::byte[l.a->size]);
        l.h->finalize_to(std::span<std::byte>(out.get(), l.a->size));
        VP_EQ(ref::hex(std::string_view(reinterpret_cast<const char*>(out.get()), l.a->size)), ref::hex(ref::digest(*l.a, l.msg)), << l.a->name);
        g.nontrivial(l.pieces > 1 || l.finals > 0);
    }
}
