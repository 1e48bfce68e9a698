// C06 object_pool: bounded, exclusive, recycling, safe against any order of release and pool destruction.
#include "pbt.hpp"
#include "sched.hpp"
#include <condition_variable>
#include "dottorrent/object_pool.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a history of get / share / release / move / destroy operations on one pool (sequential, compared with a model), or one "
    "getter thread with up to 4 releasing threads under a perturbed schedule; non-trivial: an object was handed out a second time, a get had to wait, or "
    "objects outlived the pool";

namespace {
std::atomic<int> live {0}, constructed {0}, recycled {0}, bad {0};
std::atomic<int> fail_constructions {0};
struct construct_fault { };

struct resource {
    std::atomic<int> users {0};
    int stamp = 0;
    int recycles = 0;
    resource() { if (fail_constructions > 0) { --fail_constructions; throw construct_fault{}; } ++live; ++constructed; }
    resource(const resource&) = delete;
    ~resource() { if (users != 0) ++bad; --live; }
};
struct self_aware : std::enable_shared_from_this<self_aware> {
    std::atomic<int> users {0};
    int stamp = 0;
    int recycles = 0;
    self_aware() { if (fail_constructions > 0) { --fail_constructions; throw construct_fault{}; } ++live; ++constructed; }
    ~self_aware() { if (users != 0) ++bad; --live; }
};
template <typename T> struct policy {
    static auto construct() -> std::shared_ptr<T> { return std::make_shared<T>(); }
    static void recycle(std::shared_ptr<T>& p) { sched::point(); if (!p || p->users != 0) ++bad; else ++p->recycles; ++recycled; }
};

template <typename T> void sequential(vp::gen& g)
{
    sched::seed(0, 0);
    live = constructed = recycled = bad = fail_constructions = 0;
    const bool large = g.chance(2);
    const std::ptrdiff_t capacity = 1 + g.draw(large ? 200 : 4);
    if (large) g.label("large capacity");
    const std::ptrdiff_t initial = g.boolean() ? g.draw(capacity) : 0;
    g.note() << "sequential capacity " << capacity << " initial " << initial << ": ";
    {
        using pool_t = dt::pool::object_pool<T, policy<T>>;
        std::optional<pool_t> pool;
        if (initial || g.boolean()) pool.emplace(capacity, initial); else pool.emplace(capacity);
        struct handle { std::vector<std::shared_ptr<T>> refs; int stamp; };
        std::map<T*, handle> out;            // handed out
        std::vector<std::weak_ptr<T>> observers;   // do not keep an object alive, nor in use
        std::map<T*, int> idle;              // address -> stamp, when known to the model
        std::ptrdiff_t idle_count = initial, made = initial;
        int want_recycled = 0, stamp = 1;
        auto ops = 1 + (large ? g.draw(600) : g.size(40));
        for (std::size_t k = 0; k < ops && pool; ++k) {
            switch (g.weighted({8, 6, 2, 1, 1, 2})) {
            case 0: {
                if (static_cast<std::ptrdiff_t>(out.size()) >= capacity) { // nothing left: get waits for a release
                    auto victim = std::next(out.begin(), g.draw(out.size() - 1));
                    T* addr = victim->first; int st = victim->second.stamp;
                    auto refs = std::move(victim->second.refs);
                    out.erase(victim);
                    addr->users = 0;
                    const auto longer = sched::long_wait(g);
                    std::thread t([&] { std::this_thread::sleep_for(std::chrono::microseconds(200)); sched::wait_ms(longer); refs.clear(); });
                    auto p = pool->get();
                    t.join();
                    VP_REQUIRE(p.get() == addr, << "a waiting get did not receive the released object");
                    VP_EQ(p->stamp, st);
                    ++want_recycled;
                    p->users = 1; p->stamp = stamp;
                    out[p.get()] = {{p}, stamp++};
                    g.nontrivial(); g.label("waiting get"); g.note() << "waiting-get ";
                    break;
                }
                auto p = pool->get();
                VP_REQUIRE(p != nullptr);
                VP_REQUIRE(!out.count(p.get()), << "object handed out twice");
                VP_EQ(p->users.load(), 0);
                p->users = 1;
                if (idle_count > 0) {
                    --idle_count;
                    auto it = idle.find(p.get());
                    if (it != idle.end()) { VP_EQ(p->stamp, it->second, << "a recycled object changed"); idle.erase(it); g.nontrivial(); g.label("reused object"); }
                    else VP_EQ(p->stamp, 0);
                } else ++made;
                VP_EQ(constructed.load(), static_cast<int>(made), << "objects constructed");
                VP_REQUIRE(made <= capacity);
                p->stamp = stamp;
                out[p.get()] = {{p}, stamp++};
                g.note() << "get ";
                break;
            }
            case 1: {
                if (out.empty()) break;
                auto it = std::next(out.begin(), g.draw(out.size() - 1));
                bool last = it->second.refs.size() == 1;
                if (last) { it->first->users = 0; idle[it->first] = it->second.stamp; ++idle_count; ++want_recycled; }
                it->second.refs.pop_back();
                if (last) out.erase(it);
                g.note() << (last ? "release " : "drop-copy ");
                break;
            }
            case 2: { // further shared owners of one object
                if (out.empty()) break;
                auto it = std::next(out.begin(), g.draw(out.size() - 1));
                it->second.refs.push_back(it->second.refs.front());
                if (g.boolean()) { observers.emplace_back(it->second.refs.front()); g.label("observed object"); }
                g.note() << "share ";
                break;
            }
            case 3: { pool_t other = std::move(*pool); if (g.boolean()) { pool.emplace(std::move(other)); } else { pool.emplace(1); *pool = std::move(other); } g.note() << "move "; g.label("moved pool"); break; }
            case 4: if (g.chance(30)) { g.note() << "destroy with " << out.size() << " in use "; g.nontrivial(!out.empty()); if (!out.empty()) g.label("outlived pool"); pool.reset(); } break;
            default: { // a failing construction must not use up a place in the pool
                if (idle_count != 0 || made >= capacity) break;
                fail_constructions = 1;
                bool threw = false;
                try { auto p = pool->get(); } catch (const construct_fault&) { threw = true; }
                VP_REQUIRE(threw);
                fail_constructions = 0;
                g.label("failing construction"); g.note() << "failed-construction ";
                break;
            }
            }
            if (pool) VP_EQ(pool->size(), idle_count, << "idle objects");
            VP_EQ(recycled.load(), want_recycled, << "objects recycled");
            for (auto& [p, h] : out) VP_REQUIRE(p->stamp == h.stamp && p->users == 1, << "an object in use was changed");
            VP_EQ(bad.load(), 0, << "an object was recycled or destroyed while in use");
        }
        const int before = recycled;
        const bool pool_gone = !pool;
        if (pool_gone) VP_EQ(live.load(), static_cast<int>(out.size()), << "idle objects survive the pool");
        for (auto& [p, h] : out) p->users = 0;
        auto n_out = static_cast<int>(out.size());
        out.clear();
        for (auto& o : observers) VP_REQUIRE(o.expired(), << "an object in the pool is still owned");
        VP_EQ(recycled.load(), pool_gone ? before : before + n_out, << "recycled at the end");
        if (pool_gone) VP_EQ(live.load(), 0, << "objects survive their last owner after the pool is gone");
    }
    VP_EQ(live.load(), 0, << "objects leaked");
    VP_EQ(bad.load(), 0);
}

void concurrent(vp::gen& g)
{
    live = constructed = recycled = bad = fail_constructions = 0;
    const std::ptrdiff_t capacity = 1 + g.draw(5);
    const std::ptrdiff_t initial = g.draw(capacity);
    const auto workers = 1 + g.draw(3);
    const auto count = 1 + g.draw(80);
    const unsigned lvl = g.draw(3);
    const auto seed = g.draw(1 << 20);
    const bool early = g.chance(30);
    g.note() << "concurrent capacity " << capacity << " initial " << initial << " releasing threads " << workers << " gets " << count << " perturbation " << lvl << (early ? " pool destroyed early" : "");
    g.nontrivial(static_cast<std::ptrdiff_t>(count) > capacity); g.label("releasing threads " + std::to_string(workers));
    std::atomic<int> in_use {0}, over {0}, shared_twice {0};
    {
        using pool_t = dt::pool::object_pool<resource, policy<resource>>;
        auto pool = std::make_unique<pool_t>(capacity, initial);
        // handover list of the harness (own synchronisation, not the code under test)
        std::mutex m; std::condition_variable cv; std::vector<std::shared_ptr<resource>> work; bool end = false;
        std::vector<std::thread> ts;
        for (std::size_t w = 0; w < workers; ++w) ts.emplace_back([&, w] {
            sched::seed(seed + w, lvl);
            while (true) {
                std::shared_ptr<resource> r;
                {
                    std::unique_lock lk(m);
                    cv.wait(lk, [&] { return end || !work.empty(); });
                    if (work.empty()) return;
                    auto i = sched::next() % work.size();
                    r = std::move(work[i]); work.erase(work.begin() + i);
                }
                sched::point();
                if (r->users != 1) ++shared_twice;
                r->stamp++;
                std::shared_ptr<resource> copy = r;
                sched::point();
                r.reset();
                copy->users = 0;
                --in_use;
                copy.reset();
            }
        });
        sched::seed(seed + 50, lvl);
        for (std::size_t i = 0; i < count; ++i) {
            sched::point();
            auto p = pool->get();
            if (p->users.fetch_add(1) != 0) ++shared_twice;
            if (++in_use > capacity) ++over;
            if (pool->size() > capacity) ++over;
            { std::lock_guard lk(m); work.push_back(std::move(p)); }
            cv.notify_one();
        }
        if (early) pool.reset();
        { std::lock_guard lk(m); end = true; }
        cv.notify_all();
        for (auto& t : ts) t.join();
        if (!early) {
            VP_EQ(pool->size(), constructed.load(), << "objects not returned to the pool");
            VP_EQ(recycled.load(), static_cast<int>(count));
        }
        VP_REQUIRE(constructed.load() <= capacity, << constructed.load() << " objects for capacity " << capacity);
        VP_EQ(shared_twice.load(), 0, << "an object was given to two users at once");
        VP_EQ(over.load(), 0, << "more objects than the capacity");
        VP_EQ(bad.load(), 0);
    }
    VP_EQ(live.load(), 0, << "objects leaked");
}

// An object that owns another object of the same pool; recycling it lets go of that one.
struct node {
    std::shared_ptr<node> next;
    int recycles = 0, value = 0;
    node() { if (fail_constructions > 0 && --fail_constructions == 0) throw construct_fault{}; ++live; ++constructed; }
    node(const node&) = delete;
    ~node() { --live; }
};
struct node_policy {
    static auto construct() -> std::shared_ptr<node> { return std::make_shared<node>(); }
    static void recycle(std::shared_ptr<node>& p) { sched::point(); if (!p) { ++bad; return; } ++p->recycles; ++recycled; p->next.reset(); }
};

void chains(vp::gen& g)
{
    sched::seed(0, 0);
    live = constructed = recycled = bad = fail_constructions = 0;
    const std::ptrdiff_t capacity = 1 + g.draw(12);
    const std::ptrdiff_t initial = g.draw(capacity);
    g.note() << "chains capacity " << capacity << " initial " << initial << ": ";
    {
        using pool_t = dt::pool::object_pool<node, node_policy>;
        std::optional<pool_t> pool;
        if (initial > 0 && g.chance(25)) { // an initial object cannot be made
            fail_constructions = 1 + static_cast<int>(g.draw(initial - 1));
            bool threw = false;
            try { pool.emplace(capacity, initial); } catch (const construct_fault&) { threw = true; }
            VP_REQUIRE(threw, << "a failed initial construction is not reported");
            fail_constructions = 0;
            VP_EQ(live.load(), 0, << "objects leaked by a failed pool");
            constructed = 0;
            pool.reset();
            g.label("failing initial construction"); g.note() << "failed-initial ";
        }
        pool.emplace(capacity, initial);
        VP_EQ(pool->size(), initial);
        std::vector<std::vector<std::shared_ptr<node>>> heads;   // one element: the head of a chain
        std::vector<std::size_t> length;
        std::ptrdiff_t used = 0, made = initial;
        int want = 0;
        const auto ops = 1 + g.size(40);
        for (std::size_t k = 0; k < ops && pool; ++k) {
            switch (g.weighted({8, 5, 1})) {
            case 0: {
                if (used == capacity) break;
                auto p = pool->get();
                VP_REQUIRE(p && !p->next, << "an object came back still owning another");
                if (used == made) ++made;
                ++used;
                if (!heads.empty() && g.chance(70)) { auto i = g.draw(heads.size() - 1); p->next = std::move(heads[i][0]); heads[i][0] = std::move(p); ++length[i]; g.note() << "chain "; }
                else { heads.push_back({}); heads.back().push_back(std::move(p)); length.push_back(1); g.note() << "get "; }
                break;
            }
            case 1: {
                if (heads.empty()) break;
                auto i = g.draw(heads.size() - 1);
                if (length[i] > 1) { g.nontrivial(); g.label("chain of " + std::string(length[i] > 3 ? "4 or more" : std::to_string(length[i])) + " released"); }
                g.note() << "release " << length[i] << " ";
                want += static_cast<int>(length[i]); used -= static_cast<std::ptrdiff_t>(length[i]);
                heads.erase(heads.begin() + i); length.erase(length.begin() + i);
                break;
            }
            default: if (g.chance(20)) { pool.reset(); g.label("outlived pool"); g.note() << "destroy "; } break;
            }
            if (pool) VP_EQ(pool->size(), made - used, << "idle objects");
            else VP_EQ(live.load(), static_cast<int>(used), << "idle objects survive the pool");
            VP_EQ(constructed.load(), static_cast<int>(made), << "objects constructed");
            VP_EQ(recycled.load(), want, << "objects recycled");
        }
        const bool gone = !pool;
        heads.clear();
        VP_EQ(recycled.load(), gone ? want : want + static_cast<int>(used), << "objects recycled at the end");
        if (gone) VP_EQ(live.load(), 0, << "objects survive their last owner after the pool is gone");
        VP_EQ(bad.load(), 0);
    }
    VP_EQ(live.load(), 0, << "objects leaked");
}

// The default policy: objects are made with their default constructor and come back as they were left.
void plain(vp::gen& g)
{
    sched::seed(0, 0);
    const std::ptrdiff_t capacity = 1 + g.draw(6);
    g.note() << "default policy capacity " << capacity << ": ";
    dt::pool::object_pool<std::vector<int>> pool(capacity);
    std::vector<std::pair<std::shared_ptr<std::vector<int>>, int>> out;
    std::map<std::vector<int>*, int> left;
    const auto ops = 1 + g.size(30);
    int stamp = 1;
    for (std::size_t k = 0; k < ops; ++k) {
        if (g.chance(60) && static_cast<std::ptrdiff_t>(out.size()) < capacity) {
            auto p = pool.get();
            VP_REQUIRE(p != nullptr);
            for (auto& o : out) VP_REQUIRE(o.first != p, << "object handed out twice");
            auto it = left.find(p.get());
            if (it == left.end()) VP_REQUIRE(p->empty(), << "a new object is not fresh");
            else { VP_REQUIRE(p->size() == 1 && (*p)[0] == it->second, << "a returned object changed"); left.erase(it); g.nontrivial(); }
            p->assign(1, stamp); out.emplace_back(std::move(p), stamp++);
            g.note() << "get ";
        } else if (!out.empty()) {
            auto i = g.draw(out.size() - 1);
            VP_REQUIRE(out[i].first->size() == 1 && (*out[i].first)[0] == out[i].second, << "an object in use was changed");
            left[out[i].first.get()] = out[i].second;
            out.erase(out.begin() + i);
            g.note() << "release ";
        }
        VP_EQ(pool.size(), static_cast<std::ptrdiff_t>(left.size()), << "idle objects");
    }
    g.label("default policy");
}
}

void vp::property(gen& g)
{
    switch (g.weighted({8, 4, 8, 3, 1})) {
    case 0: sequential<resource>(g); break;
    case 1: sequential<self_aware>(g); break;
    case 2: concurrent(g); break;
    case 3: chains(g); break;
    default: plain(g); break;
    }
}
