//@ prop C24
//@ threads yes
//@ bounds thread pool: one worker besides the caller, up to two tasks; every schedule with at most two preemptions; races by happens-before over those schedules
//@ run h_pool race preempt=2 budget=60
//@ src dal/concurrency/threadpool.cpp
#include <atomic>
#include <stdexcept>
#include <dal/platform/platform.hpp>
#include <dal/math/vectors.hpp>
#include <dal/concurrency/threadpool.hpp>
#include "sym.h"
using namespace Dal;
HARNESS(h_pool) {
    int k = sym_choice("shape", 7); ThreadPool_* P = ThreadPool_::GetInstance(); ASSERT(P->NumThreads() == 2, "the pool has one thread for each processor"); ASSERT(ThreadPool_::ThreadNum() == 0, "the calling thread is number zero");
    int r[3] = {0, 0, 0}; size_t n[3] = {9, 9, 9}; int v = (int)sym_i64("v", -1000, 1000);
    if (k == 0) { auto f = P->SpawnTask([&] { r[0] += v; n[0] = ThreadPool_::ThreadNum(); return true; }); P->ActiveWait(f); ASSERT(r[0] == v, "a task has run exactly once when its wait returns"); ASSERT(n[0] < 2, "thread numbers are below the number of threads"); ASSERT(f.get(), "a task's result is delivered"); }
    else if (k == 1) { Vector_<TaskHandle_> h; for (int i = 0; i < 2; ++i) h.push_back(P->SpawnTask([&, i] { r[i] += v + i; return i == 1; })); for (auto& f : h) P->ActiveWait(f); for (int i = 0; i < 2; ++i) ASSERT(r[i] == v + i, "a task has run exactly once when its wait returns"); ASSERT(!h[0].get() && h[1].get(), "a task's result is delivered"); }
    else if (k == 2) { auto f = P->SpawnTask([&] { r[0] = 1; throw std::runtime_error("x"); return true; }); P->ActiveWait(f); bool c = false; try { f.get(); } catch (std::runtime_error&) { c = true; } ASSERT(c && r[0] == 1, "a failing task's error is delivered"); auto g = P->SpawnTask([&] { r[1] = 1; return true; }); P->ActiveWait(g); ASSERT(r[1] == 1, "the pool goes on after a failing task"); }
    else if (k == 3) { auto f = P->SpawnTask([&] { auto g = P->SpawnTask([&] { r[1] = v; return true; }); P->ActiveWait(g); r[0] = r[1] + 1; return true; }); P->ActiveWait(f); ASSERT(r[0] == v + 1, "tasks can spawn and wait for tasks"); }
    else if (k == 4) { auto f = P->SpawnTask([&] { n[0] = ThreadPool_::ThreadNum(); return true; }); ASSERT(f.get() && n[0] == 1, "the worker runs tasks on its own and has its own number"); }
    else if (k == 5) { { auto f = P->SpawnTask([&] { ++r[0]; return true; }); P->Stop(); } int seen = r[0]; ASSERT(seen <= 1, "a task runs at most once"); P->Start(2); auto g = P->SpawnTask([&] { ++r[1]; return true; }); P->ActiveWait(g); ASSERT(r[0] == seen && r[1] == 1, "a task dropped by stopping the pool never runs later"); }
    else { P->Stop(); ASSERT(P->NumThreads() == 1, "a stopped pool has no threads of its own"); P->Start(2); ASSERT(P->NumThreads() == 2, "a restarted pool has its threads"); auto f = P->SpawnTask([&] { r[0] += v; return true; }); P->ActiveWait(f); ASSERT(r[0] == v, "a task has run exactly once when its wait returns"); auto g = P->SpawnTask([&] { r[1] = v; return true; }); ASSERT(g.get() && r[1] == v, "a restarted pool runs tasks"); }
    P->Stop();
}
