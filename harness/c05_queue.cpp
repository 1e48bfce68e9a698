// C05 concurrent_queue: bounded FIFO, nothing lost or duplicated, no lost wake-up, for every history and schedule.
#include "pbt.hpp"
#include "sched.hpp"
#include "dottorrent/concurrent_queue.hpp"
#include <deque>

namespace dt = dottorrent;
const char* const vp::rule = "a case is either a sequential history of push/try_push/pop/try_pop/size/set_capacity operations (with threads parked in blocking "
    "calls) compared with a bounded deque, or a concurrent run of 1-4 producers and 1-4 consumers whose real-time order of operations is checked against the "
    "FIFO specification; non-trivial: the queue was full or empty when an operation met it, or at least two threads operated on it";

namespace {
struct copy_fault { };
std::atomic<int> live {0};
struct item {
    std::unique_ptr<int> v;      // on the heap: a lost, doubled or torn element is visible
    bool throw_on_copy = false;
    item() { ++live; }
    explicit item(int i) : v(new int(i)) { ++live; }
    item(const item& o) : throw_on_copy(o.throw_on_copy)
    { if (throw_on_copy) throw copy_fault{}; sched::point(); v = o.v ? std::make_unique<int>(*o.v) : nullptr; ++live; }
    item(item&& o) noexcept : throw_on_copy(o.throw_on_copy) { sched::point(); v = std::move(o.v); ++live; }
    item& operator=(item&& o) noexcept { sched::point(); v = std::move(o.v); throw_on_copy = o.throw_on_copy; return *this; }
    item& operator=(const item& o) { if (o.throw_on_copy) throw copy_fault{}; v = o.v ? std::make_unique<int>(*o.v) : nullptr; return *this; }
    ~item() { --live; }
};
using queue = dt::concurrent_queue<item>;

int value(const item& i) { return i.v ? *i.v : -1; }

void sequential(vp::gen& g)
{
    sched::seed(0, 0);
    live = 0;
    {
    const bool large = g.chance(2);
    std::size_t cap = large ? 1 + g.draw(500) : g.draw(5);
    if (large) g.label("large capacity");
    auto huge = [&] { g.label("capacity beyond 32 bits"); return g.pick({std::size_t{1} << 31, (std::size_t{1} << 32) - 1, std::size_t{1} << 32, (std::size_t{1} << 32) + 1, SIZE_MAX / 2 + 1, SIZE_MAX}); };
    if (!large && g.chance(3)) cap = huge();
    queue q(cap);
    std::deque<int> m;
    int next = 1;
    auto push = [&](int i, bool by_copy) { if (by_copy) { item x(i); q.push(x); VP_EQ(value(x), i, << "push(const&) changed its argument"); } else q.push(item(i)); };
    auto ops = 1 + (large ? g.draw(1500) : g.size(40));
    g.note() << "sequential capacity " << cap << ": ";
    for (std::size_t k = 0; k < ops; ++k) {
        switch (large ? (g.chance(k / 300 % 2 ? 35 : 65) ? g.draw(1) : 2 + g.draw(2)) : g.weighted({6, 6, 6, 6, 3, 3, 2, 2, 2, 1})) {
        case 0: if (m.size() < cap) { push(next, g.boolean()); m.push_back(next++); g.note() << "push "; } break;
        case 1: {
            item x(next);
            bool want = m.size() < cap;
            VP_EQ(q.try_push(std::move(x)), want, << "try_push with " << m.size() << " of " << cap);
            if (want) m.push_back(next);
            else { VP_EQ(value(x), next, << "a refused try_push consumed its argument"); g.nontrivial(); g.label("refused try_push"); }
            ++next; g.note() << "try_push "; break;
        }
        case 2: if (!m.empty()) { item x; q.pop(x); VP_EQ(value(x), m.front()); m.pop_front(); g.note() << "pop "; } break;
        case 3: {
            item x(-7);
            bool want = !m.empty();
            VP_EQ(q.try_pop(x), want, << "try_pop with " << m.size() << " elements");
            if (want) { VP_EQ(value(x), m.front()); m.pop_front(); } else { VP_EQ(value(x), -7); g.nontrivial(); g.label("try_pop on empty"); }
            g.note() << "try_pop "; break;
        }
        case 4: VP_EQ(q.size(), m.size()); break;
        case 5: cap = g.chance(5) ? huge() : g.draw(6); q.set_capacity(cap); g.note() << "set_capacity " << cap << " "; if (m.size() > cap) g.label("shrunk below size"); break;
        case 6: { // producers parked on a full queue, released by pops or by a larger capacity
            if (m.size() < cap) break;
            auto n = 1 + g.draw(2);
            bool by_cap = g.boolean();
            std::vector<std::thread> ts;
            std::vector<int> vals;
            for (std::size_t i = 0; i < n; ++i) { vals.push_back(next++); ts.emplace_back([&q, v = vals.back(), by_copy = g.boolean()] { if (by_copy) { item x(v); q.push(x); } else q.push(item(v)); }); }
            auto pause = g.draw(2);
            sched::wait_ms(sched::long_wait(g));
            if (pause) std::this_thread::sleep_for(std::chrono::microseconds(pause * 100));
            VP_EQ(q.size(), m.size(), << "a push went through on a full queue (" << m.size() << " of " << cap << ")");
            g.note() << n << " parked pushes, " << (by_cap ? "capacity raised " : "popped ");
            if (by_cap) { cap = m.size() + n; q.set_capacity(cap); }
            else while (m.size() + n > cap && !m.empty()) { item x; q.pop(x); VP_EQ(value(x), m.front()); m.pop_front();
                    if (m.size() < cap) break; }
            if (!by_cap) {
                // each further pop makes room for one parked push; the popped values stay in order for the old ones
                std::size_t freed = cap > m.size() ? cap - m.size() : 0;
                while (freed < n && cap > 0) { item x; q.pop(x); if (!m.empty()) { VP_EQ(value(x), m.front()); m.pop_front(); }
                    else { auto it = std::find(vals.begin(), vals.end(), value(x)); VP_REQUIRE(it != vals.end(), << "unexpected element " << value(x)); vals.erase(it); }
                    ++freed; }
                if (cap == 0) { cap = n + m.size(); q.set_capacity(cap); }
            }
            for (auto& t : ts) t.join();
            // the parked elements are in the queue now, behind the older ones, in some order
            std::deque<item> drained;
            std::vector<int> got;
            item x; while (q.try_pop(x)) got.push_back(value(x));
            VP_EQ(got.size(), m.size() + vals.size());
            for (std::size_t i = 0; i < m.size(); ++i) VP_EQ(got[i], m[i], << "older element overtaken");
            std::vector<int> tail(got.begin() + m.size(), got.end()), w = vals;
            std::sort(tail.begin(), tail.end()); std::sort(w.begin(), w.end());
            VP_REQUIRE(tail == w, << "parked pushes lost or doubled");
            m.clear();
            g.nontrivial(); g.label("parked producers");
            break;
        }
        case 7: { // consumers parked on an empty queue
            if (!m.empty() || cap == 0) break;
            auto n = 1 + g.draw(2);
            std::vector<std::thread> ts;
            std::vector<int> got(n, 0);
            for (std::size_t i = 0; i < n; ++i) ts.emplace_back([&q, &got, i] { item x; q.pop(x); got[i] = value(x); });
            if (g.boolean()) std::this_thread::sleep_for(std::chrono::microseconds(100));
            sched::wait_ms(sched::long_wait(g));
            std::vector<int> vals;
            bool tp = g.boolean();
            for (std::size_t i = 0; i < n; ++i) {
                vals.push_back(next);
                if (tp) { while (true) { item x(next); if (q.try_push(std::move(x))) break; std::this_thread::yield(); } }
                else q.push(item(next));
                ++next;
            }
            for (auto& t : ts) t.join();
            std::sort(got.begin(), got.end());
            VP_REQUIRE(got == vals, << "parked consumers did not receive each element once");
            VP_EQ(q.size(), 0u);
            g.note() << n << " parked pops ";
            g.nontrivial(); g.label("parked consumers");
            break;
        }
        case 8: { // an element whose copy fails is not queued, and the queue goes on working
            if (m.size() >= cap) break;
            item x(next); x.throw_on_copy = true;
            bool threw = false;
            try { q.push(static_cast<const item&>(x)); } catch (const copy_fault&) { threw = true; }
            VP_REQUIRE(threw);
            VP_EQ(q.size(), m.size(), << "after a push that threw");
            g.label("failing copy"); g.note() << "failed push ";
            break;
        }
        default: while (!m.empty()) { item x; q.pop(x); VP_EQ(value(x), m.front()); m.pop_front(); } g.note() << "drain "; break;
        }
        VP_EQ(q.size(), m.size());
    }
    }
    VP_EQ(live.load(), 0, << "elements not destroyed with the queue");
}

struct event { std::uint64_t start = 0, end = 0; int val = -1; bool ok = true; };

void concurrent(vp::gen& g)
{
    std::size_t producers = 1 + g.draw(3), consumers = 1 + g.draw(3);
    std::size_t cap = g.weighted({4, 3, 2}) == 0 ? 1 : 1 + g.draw(7);
    unsigned lvl = g.draw(3);
    auto seed = g.draw(1 << 20);
    std::vector<std::size_t> counts(producers);
    std::size_t total = 0;
    for (auto& c : counts) { c = g.draw(40); total += c; }
    std::vector<unsigned> try_push_pct(producers), try_pop_pct(consumers);
    for (auto& p : try_push_pct) p = g.pick({0u, 30u, 100u});
    for (auto& p : try_pop_pct) p = g.pick({0u, 30u, 100u});
    bool raise = g.chance(20);
    std::size_t cap0 = raise ? g.draw(1) : cap;
    g.note() << "concurrent producers " << producers << " consumers " << consumers << " capacity " << cap << (raise ? " raised later" : "") << " elements " << total << " perturbation " << lvl;
    g.label("P" + std::to_string(producers) + "C" + std::to_string(consumers));
    g.nontrivial(total > 1);
    std::vector<std::vector<event>> pushed(producers), refused(producers), popped(consumers), empties(consumers);
    std::atomic<std::uint64_t> clock {1};
    std::atomic<std::size_t> claimed {0}, oversize {0};
    std::atomic<bool> stop {false};
    {
        queue q(cap0);
        std::vector<std::thread> ts;
        for (std::size_t p = 0; p < producers; ++p) ts.emplace_back([&, p] {
            sched::seed(seed + p, lvl);
            for (std::size_t i = 0; i < counts[p]; ++i) {
                int v = static_cast<int>(p * 1000 + i);
                bool done = false;
                while (!done) {
                    sched::point();
                    bool tr = sched::next() % 100 < try_push_pct[p];
                    item x(v);
                    event e; e.val = v; e.start = clock++;
                    if (tr) done = q.try_push(std::move(x));
                    else { if (sched::next() & 1) q.push(x); else q.push(std::move(x)); done = true; }
                    e.end = clock++; e.ok = done;
                    if (done) pushed[p].push_back(e);
                    else { if (refused[p].size() < 200) refused[p].push_back(e); std::this_thread::yield(); }
                }
            }
        });
        for (std::size_t c = 0; c < consumers; ++c) ts.emplace_back([&, c] {
            sched::seed(seed + 100 + c, lvl);
            while (claimed.fetch_add(1) < total) {     // one element is guaranteed to arrive for this claim
                bool done = false;
                while (!done) {
                    sched::point();
                    item x;
                    event e; e.start = clock++;
                    if (sched::next() % 100 < try_pop_pct[c]) done = q.try_pop(x);
                    else { q.pop(x); done = true; }
                    e.end = clock++; e.val = value(x);
                    if (done) popped[c].push_back(e);
                    else { if (empties[c].size() < 200) empties[c].push_back(e); std::this_thread::yield(); }
                }
            }
        });
        std::thread observer([&] { while (!stop.load()) { if (q.size() > cap) ++oversize; std::this_thread::yield(); } });
        if (raise) { std::this_thread::sleep_for(std::chrono::microseconds(100)); q.set_capacity(cap); }
        for (auto& t : ts) t.join();
        stop = true;
        observer.join();
        VP_EQ(q.size(), 0u);
    }
    VP_EQ(oversize.load(), 0u, << "size() above the capacity");
    std::map<int, event> pu, po;
    std::vector<event> pops;
    for (auto& v : pushed) for (auto& e : v) pu[e.val] = e;
    for (auto& v : popped) for (auto& e : v) {
        VP_REQUIRE(pu.count(e.val), << "popped " << e.val << " which was never pushed");
        VP_REQUIRE(po.emplace(e.val, e).second, << "element " << e.val << " popped twice");
        pops.push_back(e);
    }
    VP_EQ(po.size(), total, << "elements lost");
    for (auto& v : popped) {   // one consumer sees the elements of one producer in order
        std::map<int, int> last;
        for (auto& e : v) { auto [it, fresh] = last.emplace(e.val / 1000, e.val); VP_REQUIRE(fresh || it->second < e.val, << "element " << e.val << " after " << it->second); it->second = e.val; }
    }
    // FIFO in real time: A entered before B started to enter, so B cannot have left before A started to leave
    for (auto& [a, ea] : pu) for (auto& [b, eb] : pu)
        if (ea.end < eb.start) VP_REQUIRE(!(po[b].end < po[a].start), << b << " overtook " << a);
    // an element is not available before its push started
    for (auto& [a, ea] : pu) VP_REQUIRE(!(po[a].end < ea.start));
    // try_pop reported empty although an element was inside during the whole call
    for (auto& v : empties) for (auto& e : v) for (auto& [a, ea] : pu)
        VP_REQUIRE(!(ea.end < e.start && po[a].start > e.end), << "try_pop reported empty while " << a << " was queued");
    // try_push refused although at most capacity-1 elements can have been inside
    if (!raise) for (auto& v : refused) for (auto& e : v) {
        std::size_t in = 0, out = 0;
        for (auto& [a, ea] : pu) in += ea.start < e.end;
        for (auto& [a, ea] : po) out += ea.end < e.start;
        VP_REQUIRE(in - out >= cap, << "try_push refused with at most " << in - out << " elements inside, capacity " << cap);
    }
    // more elements certainly inside than the capacity allows
    for (auto& [a, ea] : pu) {
        std::size_t in = 0, out = 0;
        for (auto& [b, eb] : pu) in += eb.end <= ea.end;
        for (auto& [b, eb] : po) out += eb.start <= ea.end;
        if (in > out) VP_REQUIRE(in - out <= cap, << in - out << " elements inside, capacity " << cap);
    }
}
// Phases of many pushes and pops: the same first-in first-out order at any depth.
void deep(vp::gen& g)
{
    sched::seed(0, 0);
    live = 0;
    {
    const bool very = g.chance(5);
    std::size_t cap = g.boolean() ? SIZE_MAX : 1 + g.draw(very ? 80000 : 6000);
    queue q(cap);
    std::deque<int> m;
    int next = 1;
    std::size_t most = 0;
    g.note() << "deep capacity " << cap << ": ";
    const auto phases = 1 + g.draw(4);
    for (std::size_t k = 0; k < phases; ++k) {
        const std::size_t n = g.draw(very ? 80000 : 6000);
        const auto how = g.draw(2);
        g.note() << (how < 2 ? "push " : "pop ") << n << " ";
        for (std::size_t i = 0; i < n; ++i) {
            if (how == 0) { if (m.size() >= cap) break; q.push(item(next)); m.push_back(next++); }
            else if (how == 1) {
                const bool want = m.size() < cap;
                item x(next);
                VP_EQ(q.try_push(std::move(x)), want, << "try_push with " << m.size() << " of " << cap);
                if (!want) { g.nontrivial(); g.label("full when deep"); break; }
                m.push_back(next++);
            } else {
                item x;
                const bool want = !m.empty();
                VP_EQ(q.try_pop(x), want, << "try_pop with " << m.size() << " elements");
                if (!want) { g.nontrivial(); break; }
                VP_EQ(value(x), m.front()); m.pop_front();
            }
        }
        most = std::max(most, m.size());
        VP_EQ(q.size(), m.size());
        if (g.chance(20) && m.size() < 100000) { cap = g.draw(very ? 80000 : 6000); q.set_capacity(cap); g.note() << "set_capacity " << cap << " "; }
    }
    if (most > 1000) { g.nontrivial(); g.label(most > 65536 ? "over 65536 deep" : "over 1000 deep"); }
    if (g.chance(80)) { item x; while (!m.empty()) { VP_REQUIRE(q.try_pop(x), << m.size() << " elements lost"); VP_EQ(value(x), m.front()); m.pop_front(); } VP_REQUIRE(!q.try_pop(x), << "an element too many"); }
    }
    VP_EQ(live.load(), 0, << "elements leaked");
}
}

void vp::property(gen& g)
{
    if (g.chance(1)) { deep(g); return; }
    if (g.weighted({1, 1}) == 0) sequential(g); else concurrent(g);
}
