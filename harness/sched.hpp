// Schedule perturbation shared by the concurrency harnesses: every thread carries a small generator seeded
// by the case, and hooks in element types and scripts yield, spin or sleep according to it.
#pragma once
#include <atomic>
#include <chrono>
#include <thread>
#include <cstdint>

namespace sched {
inline thread_local std::uint64_t rng = 0;
inline thread_local unsigned level = 0;   // 0: no perturbation
inline std::uint64_t next() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
inline void seed(std::uint64_t s, unsigned lvl) { rng = s * 0x9e3779b97f4a7c15ULL + 0x1234567; if (!rng) rng = 1; level = lvl; }
inline void point()
{
    if (level == 0) return;
    auto r = next() % 64;
    if (r < 4 * level) std::this_thread::yield();
    else if (r < 6 * level) { for (volatile int i = 0; i < 200; ++i) { } }
    else if (r == 63 && level >= 3 && next() % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
}

/// Milliseconds a blocked thread is kept waiting: nearly always none, sometimes longer than the time limit somebody may have put on the wait.
template <typename Gen> unsigned long_wait(Gen& g)
{
    auto r = g.draw(3999);
    unsigned ms = r >= 3997 ? 1200 : r >= 3980 ? 60 : 0;
    if (ms) g.label(ms > 100 ? "kept waiting over a second" : "kept waiting for long");
    return ms;
}
inline void wait_ms(unsigned ms) { if (ms) std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
}
