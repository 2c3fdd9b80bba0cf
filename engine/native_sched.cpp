// Native replay of a schedule: the pthread entry points are taken over so that exactly one thread runs at a time and every
// scheduling decision comes from the "sched" inputs of the counterexample, in the order the engine made them.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
namespace {
struct T { int status = 0, kind = 0; const void* on = nullptr; bool woken = false; void* (*f)(void*) = nullptr; void* a = nullptr; };
struct S { std::vector<T> th{1}; int cur = 0, streak = 0, yields = 0, preempt = 0, maxPreempt = 2, spurious = 0, maxSpurious = 0; std::map<const void*, int> owner; std::map<std::string, std::string> in; std::map<std::string, int> cnt; pthread_mutex_t g = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; };
S& st() { static S* s = [] { S* s = new S; if (const char* f = getenv("SYM_INPUT")) if (FILE* p = fopen(f, "r")) { char n[512], v[512]; while (fscanf(p, "%511s %511s", n, v) == 2) s->in[n] = v; fclose(p); } if (const char* p = getenv("SYM_PREEMPT")) s->maxPreempt = atoi(p); if (const char* p = getenv("SYM_SPURIOUS")) s->maxSpurious = atoi(p); return s; }(); return *s; }
thread_local int me = 0; bool quiet = false;
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(f) static auto r_##f = real<decltype(&f)>(#f)
void glock() { REAL(pthread_mutex_lock); r_pthread_mutex_lock(&st().g); } void gunlock() { REAL(pthread_mutex_unlock); r_pthread_mutex_unlock(&st().g); }
void gwait() { static auto w = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); w(&st().c, &st().g); } void gwake() { static auto w = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); w(&st().c); }
int input(const char* n, int dflt) { S& s = st(); int k = s.cnt[n]++; std::string u = k ? std::string(n) + "#" + std::to_string(k) : n; auto it = s.in.find(u); return it == s.in.end() ? dflt : atoi(it->second.c_str()); }
void handOver() { gwake(); while (st().cur != me) gwait(); } // with g held
void pick(int k) { S& s = st(); s.cur = k; if (s.th[k].status == 1) { ++s.spurious; s.th[k].status = 0; s.th[k].kind = 0; } }
void schedule(bool vol) {
    S& s = st(); std::vector<int> run; for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == 0) run.push_back((int)i);
    if (run.empty()) { fprintf(stderr, "DEADLOCK: every thread is blocked\n"); _exit(66); }
    if (s.spurious < s.maxSpurious) for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == 1 && s.th[i].kind == 3 && !(vol && (int)i == s.cur)) run.push_back((int)i);
    std::vector<int> o; bool cr = s.th[s.cur].status == 0; if (!vol && cr) { o.push_back(s.cur); if (s.preempt < s.maxPreempt) for (int i : run) if (i != s.cur) o.push_back(i); } else o = run;
    int k = o[0]; if (o.size() > 1) { k = input("sched", o[0]); bool ok = false; for (int x : o) ok |= x == k; if (!ok) k = o[0]; if (!vol && cr && k != s.cur) ++s.preempt; }
    pick(k);
}
void yieldPoint() {
    S& s = st(); if (s.th.size() < 2) return; if (++s.yields > 4000) { fprintf(stderr, "LIVELOCK: threads keep running without finishing\n"); _exit(66); } int c = s.cur;
    if (++s.streak > 60) for (size_t k = 1; k < s.th.size(); ++k) { int i = (c + (int)k) % (int)s.th.size(); if (s.th[i].status == 0) { s.cur = i; s.streak = 0; handOver(); return; } }
    schedule(false); if (s.cur != c) s.streak = 0; handOver(); }
void* tramp(void* p) { me = (int)(intptr_t)p; glock(); while (st().cur != me) gwait(); T t = st().th[me]; gunlock(); t.f(t.a); glock(); S& s = st(); s.th[me].status = 2; for (auto& x : s.th) if (x.status == 1 && x.kind == 1 && x.on == (void*)(intptr_t)me) x.status = 0; schedule(true); gwake(); gunlock(); return nullptr; }
}
unsigned std::thread::hardware_concurrency() noexcept { return 2; }
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) { REAL(pthread_create); glock(); S& s = st(); T n; n.f = f; n.a = a; s.th.push_back(n); int id = (int)s.th.size() - 1; pthread_t x; r_pthread_create(&x, nullptr, tramp, (void*)(intptr_t)id); *t = (pthread_t)(intptr_t)(id + 1000); schedule(false); handOver(); gunlock(); return 0; }
int pthread_join(pthread_t t, void**) { int id = (int)(intptr_t)t - 1000; glock(); S& s = st(); while (s.th[id].status != 2) { s.th[me].status = 1; s.th[me].kind = 1; s.th[me].on = (void*)(intptr_t)id; schedule(true); handOver(); } schedule(false); handOver(); gunlock(); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (quiet) return 0; glock(); S& s = st(); for (;;) { auto it = s.owner.find(m); if (it == s.owner.end() || it->second == -1) break; if (it->second == me) { fprintf(stderr, "DEADLOCK: recursive lock\n"); _exit(66); } s.th[me].status = 1; s.th[me].kind = 2; s.th[me].on = m; schedule(true); handOver(); } s.owner[m] = me; yieldPoint(); gunlock(); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { glock(); S& s = st(); auto it = s.owner.find(m); bool busy = it != s.owner.end() && it->second != -1; if (!busy) s.owner[m] = me; gunlock(); return busy ? 16 : 0; }
static void freeM(pthread_mutex_t* m) { S& s = st(); s.owner[m] = -1; for (auto& t : s.th) if (t.status == 1 && t.kind == 2 && t.on == m) t.status = 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (quiet) return 0; glock(); freeM(m); yieldPoint(); gunlock(); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { glock(); S& s = st(); freeM(m); s.th[me].status = 1; s.th[me].kind = 3; s.th[me].on = c; schedule(true); handOver(); for (;;) { auto it = s.owner.find(m); if (it == s.owner.end() || it->second == -1) break; s.th[me].status = 1; s.th[me].kind = 2; s.th[me].on = m; schedule(true); handOver(); } s.owner[m] = me; yieldPoint(); gunlock(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { glock(); S& s = st(); for (auto& t : s.th) if (t.status == 1 && t.kind == 3 && t.on == c) { t.status = 0; t.kind = 0; } yieldPoint(); gunlock(); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { glock(); S& s = st(); std::vector<int> w; for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == 1 && s.th[i].kind == 3 && s.th[i].on == c) w.push_back((int)i); if (!w.empty()) { int p = w[0]; if (w.size() > 1) { int k = input("wake", 0); p = k >= 0 && k < (int)w.size() - 1 ? w[k] : w.back(); } s.th[p].status = 0; s.th[p].kind = 0; } yieldPoint(); gunlock(); return 0; }
}
