//@ prop C24
//@ threads yes
//@ bounds queues: two or three threads, up to two elements; every schedule with at most two preemptions (at lock, unlock, wait, notify, create and join) and one spurious wake-up; races by happens-before over those schedules
//@ run h_queue race preempt=2 spurious=1 budget=60 split=4
//@ run h_interrupt race preempt=2 spurious=1 budget=60 split=3
#include <dal/platform/platform.hpp>
#include <thread>
#include <dal/concurrency/concurrentqueue.hpp>
#include "sym.h"
using namespace Dal;
HARNESS(h_queue) { // producers and consumers: every element comes out exactly once, each producer's in order
    int k = sym_choice("shape", 4); ConcurrentQueue_<int> q; int a[2] = {0, 0}, b[2] = {0, 0};
    if (k == 0) { std::thread p([&] { q.Push(1); q.Push(2); }); ASSERT(q.Pop(a[0]), "a pop delivers an element"); ASSERT(q.Pop(a[1]), "a pop delivers an element"); p.join(); ASSERT(a[0] == 1 && a[1] == 2, "elements come out in the order they went in"); ASSERT(q.Empty(), "the queue is empty after the last pop"); }
    else if (k == 1) { std::thread p([&] { q.Push(1); }); std::thread r([&] { q.Push(2); }); ASSERT(q.Pop(a[0]) & q.Pop(a[1]), "a pop delivers an element"); p.join(); r.join(); ASSERT(a[0] + a[1] == 3 && a[0] != a[1] && q.Empty(), "every element comes out exactly once"); }
    else if (k == 2) { bool ok[2] = {false, false}; std::thread p([&] { ok[0] = q.Pop(a[0]); }); std::thread r([&] { ok[1] = q.Pop(a[1]); }); q.Push(1); q.Push(2); p.join(); r.join(); ASSERT(ok[0] && ok[1] && a[0] + a[1] == 3 && a[0] != a[1] && q.Empty(), "every element comes out exactly once"); }
    else { bool t[2] = {false, false}; std::thread p([&] { q.Push(5); q.Push(6); }); t[0] = q.TryPop(b[0]); t[1] = q.TryPop(b[1]); bool e = q.Empty(); (void)e; p.join(); int n = t[0] + t[1], m = 0, x; while (q.TryPop(x)) { ASSERT(x == 5 + n + m, "elements come out in the order they went in"); ++m; } ASSERT(n + m == 2, "trying to pop takes exactly the elements there are"); ASSERT((t[0] ? b[0] == 5 : true) && (t[1] && !t[0] ? b[1] == 5 : true), "elements come out in the order they went in"); ASSERT(!q.TryPop(x) && q.Empty(), "the queue is empty after the last pop"); }
}
HARNESS(h_interrupt) {
    int k = sym_choice("shape", 3); ConcurrentQueue_<int> q; int x = 0, y = 0; bool a = true, b = true;
    if (k == 0) { std::thread p([&] { a = q.Pop(x); }); std::thread r([&] { b = q.Pop(y); }); q.Interrupt(); p.join(); r.join(); ASSERT(!a && !b, "an interrupt ends every waiting pop"); q.ResetInterrupt(); q.Push(3); ASSERT(q.Pop(x) && x == 3, "a reset queue works again"); }
    else if (k == 1) { std::thread p([&] { a = q.Pop(x); }); q.Push(7); q.Interrupt(); p.join(); ASSERT(a ? x == 7 : true, "a pop that succeeds delivers the element"); int z = 0; bool c = q.TryPop(z); ASSERT(a != c && (c ? z == 7 : true), "an element is neither lost nor delivered twice"); }
    else { q.Push(1); q.Push(2); q.Clear(); ASSERT(q.Empty() && !q.TryPop(x), "a cleared queue is empty"); std::thread p([&] { q.Push(4); }); ASSERT(q.Pop(x) && x == 4, "a pop waits for the next element"); p.join(); }
}
