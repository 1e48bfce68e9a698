// C20 multi-buffer hashers: any interleaving of jobs gives the digest of each job's data.
#include "pbt.hpp"
#include "ref_digest.hpp"
#include "dottorrent/hasher/factory.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a history on a multi-buffer hasher of one algorithm: jobs submitted whole or in parts, on new or reused job numbers, finished in any order, and the number of jobs changed; "
    "non-trivial: two jobs were open at the same time and one of them was fed in parts";

namespace {
/// data in a buffer of exactly its size, kept until the job is finished
using buffer = std::unique_ptr<std::byte[]>;
struct job { enum { fresh, open, complete, finished } state = fresh; std::string data; std::vector<std::pair<buffer, std::size_t>> buffers; int parts = 0; };
}

void vp::property(gen& g)
{
    if (g.chance(2)) {
        const auto& a = ref::algorithms()[g.draw(ref::algorithms().size() - 1)];
        const bool supported = dt::isal_multi_buffer_hasher::supported_algorithms().count(a.f) != 0;
        const bool expected = a.f == dt::hash_function::md5 || a.f == dt::hash_function::sha1 || a.f == dt::hash_function::sha256 || a.f == dt::hash_function::sha512;
        VP_EQ(supported, expected, << a.name);
        bool refused = false;
        try { auto h = dt::make_multi_buffer_hasher(a.f); } catch (const std::invalid_argument&) { refused = true; }
        VP_EQ(refused, !expected, << a.name);
        g.label("supported algorithms");
        return;
    }
    const auto& a = ref::find(g.pick({"sha1", "sha256", "sha512", "md5"}));
    g.label(a.name);
    g.note() << a.name << "; ";
    auto h = dt::make_multi_buffer_hasher(a.f);
    std::vector<job> jobs;
    const std::size_t block = a.size == 64 ? 128 : 64;
    auto data = [&](job& j) {
        auto n = g.weighted({3, 3, 2, 1});
        std::size_t size = n == 0 ? g.size(300) : n == 1 ? block * g.draw(3) + g.range(0, 2) : n == 2 ? g.draw(block) : g.draw(40000);
        auto s = g.blob(std::min<std::size_t>(size, 400));
        s.resize(size, 'x');
        j.data += s; ++j.parts;
        j.buffers.emplace_back(buffer(new std::byte[size]), size);
        if (size) std::memcpy(j.buffers.back().first.get(), s.data(), size);
        g.note() << size << "; ";
        return std::span<const std::byte>(j.buffers.back().first.get(), size);
    };
    auto text = [](std::span<const std::byte> s) { return std::string_view(reinterpret_cast<const char*>(s.data()), s.size()); };
    auto finish = [&](std::size_t i) {
        buffer out(new std::byte[a.size]);
        h->finalize_to(i, std::span<std::byte>(out.get(), a.size));
        VP_EQ(ref::hex(std::string_view(reinterpret_cast<const char*>(out.get()), a.size)), ref::hex(ref::digest(a, jobs[i].data)), << a.name << " of job " << i << " with " << jobs[i].data.size() << " bytes in " << jobs[i].parts << " parts");
        jobs[i].state = job::finished;
        jobs[i].buffers.clear();
        g.note() << "finish " << i << "; ";
    };
    auto some = [&](auto pred) -> std::optional<std::size_t> {
        if (jobs.empty()) return std::nullopt;
        const auto first = g.draw(jobs.size() - 1);
        for (std::size_t k = 0; k < jobs.size(); ++k) if (auto i = (first + k) % jobs.size(); pred(jobs[i])) return i;
        return std::nullopt;
    };
    auto idle = [](const job& j) { return j.state == job::fresh || j.state == job::finished; };
    bool together = false, split = false;
    const auto ops = 1 + g.size(60);
    for (std::size_t k = 0; k < ops; ++k) {
        switch (g.weighted({4, 3, 3, 3, 4, 3, 4, 2, 1})) {
        case 0: {
            jobs.emplace_back(); auto& j = jobs.back(); j.state = job::complete;
            g.note() << "new job "; auto d = data(j);
            VP_EQ(g.boolean() ? h->submit(d) : h->submit(text(d)), jobs.size() - 1, << "number of the new job");
            break; }
        case 1: {
            jobs.emplace_back(); auto& j = jobs.back(); j.state = job::open;
            g.note() << "new job in parts "; auto d = data(j);
            VP_EQ(g.boolean() ? h->submit_first(d) : h->submit_first(text(d)), jobs.size() - 1, << "number of the new job");
            break; }
        case 2: if (auto i = some(idle)) {
            auto& j = jobs[*i]; j = job{}; j.state = job::complete;
            g.note() << "job " << *i << " "; auto d = data(j);
            if (g.boolean()) h->submit(*i, d); else h->submit(*i, text(d));
        } break;
        case 3: if (auto i = some(idle)) {
            auto& j = jobs[*i]; j = job{}; j.state = job::open;
            g.note() << "job " << *i << " first "; h->submit_first(*i, data(j));
        } break;
        case 4: if (auto i = some([](const job& j) { return j.state == job::open; })) {
            g.note() << "job " << *i << " update "; auto d = data(jobs[*i]);
            if (g.boolean()) h->submit_update(*i, d); else h->submit_update(*i, text(d));
        } break;
        case 5: if (auto i = some([](const job& j) { return j.state == job::open; })) {
            g.note() << "job " << *i << " last "; auto d = data(jobs[*i]); jobs[*i].state = job::complete;
            if (g.boolean()) h->submit_last(*i, d); else h->submit_last(*i, text(d));
            split = true;
        } break;
        case 6: if (auto i = some([](const job& j) { return j.state == job::complete; })) finish(*i); break;
        case 7: {
            const auto n = g.chance(70) ? jobs.size() + g.size(12) : g.draw(jobs.size());
            g.note() << "resize to " << n << "; ";
            if (n < jobs.size()) g.label("fewer jobs");
            h->resize(n);
            jobs.resize(n);
            break; }
        default: h->reset(); jobs.clear(); g.note() << "reset; "; g.label("reset"); break;
        }
        VP_EQ(h->job_count(), jobs.size());
        together = together || std::count_if(jobs.begin(), jobs.end(), [&](const job& j) { return !idle(j); }) > 1;
    }
    const bool drop = g.chance(15);
    for (std::size_t i = 0; i < jobs.size() && !drop; ++i) {
        if (jobs[i].state == job::open) { g.note() << "job " << i << " last "; h->submit_last(i, data(jobs[i])); jobs[i].state = job::complete; }
        if (jobs[i].state == job::complete) finish(i);
    }
    if (drop) g.label("dropped with open jobs");
    h.reset();
    g.nontrivial(together && split);
}
