// C07 concurrent_queue_processor: every queued item is processed exactly once before wait() returns; cancellation always ends.
#include "pbt.hpp"
#include "sched.hpp"
#include <gsl-lite/gsl-lite.hpp>
#include <optional>
#include <vector>
#include "dottorrent/concurrent_queue_processor.hpp"

namespace dt = dottorrent;
const char* const vp::rule = "a case is a pool of 1-6 workers with a bounded queue, 0-4 producers, and one way of ending (stop and wait, wait in another thread "
    "before the stop, destruction, cancellation at a random moment, cancellation and destruction), in some cases with a work function that waits until every worker is at an item; non-trivial: at least two items and two threads";

namespace {
struct item { int v = -1; std::unique_ptr<int> heap; item() = default; explicit item(int i) : v(i), heap(new int(i)) {}
    item(item&& o) noexcept { sched::point(); v = o.v; heap = std::move(o.heap); }
    item& operator=(item&& o) noexcept { sched::point(); v = o.v; heap = std::move(o.heap); return *this; } };
}

void vp::property(gen& g)
{
    const auto workers = 1 + g.draw(5);
    const auto producers = g.draw(4);
    const bool deep = g.chance(12);
    const auto capacity = 1 + (deep ? g.draw(4000) : g.size(20));
    const auto lvl = static_cast<unsigned>(g.draw(3));
    const auto seed = g.draw(1 << 20);
    const auto ending = g.weighted({4, 2, 2, 3, 1});
    const auto longer = ending == 1 ? sched::long_wait(g) : 0;
    std::vector<std::size_t> counts(producers);
    std::size_t total = 0;
    const bool many = g.chance(deep ? 50 : 3);
    for (auto& c : counts) { c = g.draw(many ? 900 : 30); total += c; }
    if (many) g.label("many items");
    // every worker has to be at an item at the same time before any of them goes on
    const bool together = ending < 3 && total >= workers && g.chance(20);
    if (together) g.label("all workers at once");
    // the workers are held at their items until the end is asked for, so that the queue is as full as it gets
    const bool held = !together && capacity >= total + 2 && g.chance(deep ? 60 : 20);
    if (held) g.label(total > 150 ? "long backlog at the end" : "backlog at the end");
    // items that are in the queue before the workers start
    const std::size_t early = capacity > total + 2 && g.chance(20) ? 1 + g.draw(std::min<std::size_t>(capacity - total - 2, 300)) : 0;
    if (early) g.label("items before the start");
    const auto work_delay = g.draw(3);
    // workers that find nothing to do for long, and an item that takes long
    const auto idle_ms = sched::long_wait(g), slow_ms = sched::long_wait(g);
    static const char* names[] = {"stop+wait", "wait then stop", "destroy", "cancel+wait", "cancel+destroy"};
    g.note() << workers << " workers, " << producers << " producers, " << total << " items, capacity " << capacity << ", " << names[ending] << ", perturbation " << lvl << (together ? ", all at once" : "") << (held ? ", held until the end" : "") << (early ? ", items before the start" : "");
    g.label(names[ending]);
    g.nontrivial(total > 1 && workers + producers > 2);

    std::vector<std::atomic<int>> seen(producers * 1000 + 2000);
    std::atomic<int> torn {0}, after {0}, running {0}, max_running {0};
    std::atomic<bool> finished {false}, cancel_done {false}, met {false}, open {!held};
    std::atomic<unsigned> late {0};
    std::atomic<unsigned> wid {0};
    {
        auto proc = std::make_unique<dt::concurrent_queue_processor<item>>(capacity);
        proc->set_work_function([&](item&& i) {
            if (sched::rng == 0) sched::seed(seed + 500 + wid++, lvl);
            if (finished) ++after;
            if (cancel_done) ++late;
            item mine = std::move(i);
            int r = ++running; int m = max_running; while (r > m && !max_running.compare_exchange_weak(m, r)) { }
            if (together) { if (r >= static_cast<int>(workers)) met = true; while (!met) std::this_thread::yield(); }
            while (!open) std::this_thread::sleep_for(std::chrono::microseconds(100));
            for (std::size_t k = 0; k < work_delay; ++k) sched::point();
            if (mine.v % 1000 == 0) sched::wait_ms(slow_ms);
            if (!mine.heap || *mine.heap != mine.v) ++torn; else ++seen[mine.v];
            --running;
        });
        proc->set_max_concurrency(workers);
        VP_REQUIRE(!proc->started() && !proc->running() && !proc->cancelled() && !proc->done());
        if (g.chance(10)) proc->wait();     // nothing to wait for yet
        for (std::size_t i = 0; i < early; ++i) proc->get_queue()->push(std::optional<item>(std::in_place, static_cast<int>(producers * 1000 + 1000 + i)));
        proc->start();
        VP_REQUIRE(proc->started() && proc->running() && !proc->cancelled() && !proc->done());
        VP_REQUIRE(std::as_const(*proc).get_queue() == proc->get_queue());
        auto q = proc->get_queue();
        sched::wait_ms(idle_ms);
        std::vector<std::thread> ts;
        std::atomic<bool> give_up {false};
        for (std::size_t p = 0; p < producers; ++p) ts.emplace_back([&, p] {
            sched::seed(seed + p, lvl);
            for (std::size_t i = 0; i < counts[p]; ++i) {
                sched::point();
                int v = static_cast<int>(p * 1000 + i);
                if (ending >= 3) { // workers may be gone: do not block for ever
                    while (true) { std::optional<item> x(std::in_place, v); if (q->try_push(std::move(x))) break; if (give_up) return; std::this_thread::yield(); }
                }
                else q->push(std::optional<item>(std::in_place, v));
            }
        });
        std::jthread opener;
        auto open_later = [&] { if (held) opener = std::jthread([&] { std::this_thread::sleep_for(std::chrono::milliseconds(2)); open = true; }); };
        auto join = [&] { for (auto& t : ts) t.join(); ts.clear(); };
        sched::seed(seed + 99, lvl);
        switch (ending) {
        case 0: join(); proc->request_stop(); open_later(); proc->wait(); VP_REQUIRE(proc->done()); break;
        case 1: {
            std::thread waiter([&] { proc->wait(); });
            join();
            for (int i = 0; i < 5; ++i) sched::point();
            sched::wait_ms(longer); // the one who waits may wait long
            proc->request_stop();
            open = true;
            waiter.join();
            VP_REQUIRE(proc->done());
            break;
        }
        case 2: join(); open_later(); break;
        case 3:
        default: {
            // cancel while the producers are still at work
            auto spins = g.draw(200);
            for (std::size_t i = 0; i < spins; ++i) std::this_thread::yield();
            give_up = g.boolean();
            if (give_up) join();
            proc->request_cancellation();
            cancel_done = true;
            open_later();
            VP_REQUIRE(proc->cancelled() && !proc->running() && proc->done());
            if (ending == 3) { proc->wait(); VP_REQUIRE(proc->done()); }
            give_up = true;
            if (ending == 4) { join(); }
            break;
        }
        }
        if (ending >= 3 && ending == 3) { finished = true; join(); }
        proc.reset();
        finished = true;
    }
    VP_EQ(torn.load(), 0, << "a damaged item was processed");
    VP_EQ(after.load(), 0, << "work done after wait() returned");
    VP_REQUIRE(late.load() <= workers, << late.load() << " items begun by " << workers << " workers after the cancellation");
    VP_REQUIRE(max_running.load() <= static_cast<int>(workers), << "more workers than allowed");
    for (std::size_t p = 0; p < producers; ++p) for (std::size_t i = 0; i < counts[p]; ++i) {
        int n = seen[p * 1000 + i];
        if (ending < 3) VP_EQ(n, 1, << "item " << p * 1000 + i << " processed " << n << " times");
        else VP_REQUIRE(n <= 1, << "item " << p * 1000 + i << " processed " << n << " times");
    }
    for (std::size_t i = 0; i < early; ++i) {
        int n = seen[producers * 1000 + 1000 + i];
        VP_REQUIRE(ending < 3 ? n == 1 : n <= 1, << "item " << i << " queued before the start processed " << n << " times");
    }
}
