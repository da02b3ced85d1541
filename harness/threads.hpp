// POSIX threads stand-in: a started thread is run, nested, at a moment of the scheduler's choice at which the caller
// holds no lock.
#pragma once
#include <sx.h>
#include <errno.h>
#include <pthread.h>
#include <string.h>
#include <vector>
struct VThread { void* (*fn)(void*); void* arg; bool started, ended, freed; };
static std::vector<VThread*> threads;
static std::vector<pthread_mutex_t*> held, ready; static std::vector<pthread_cond_t*> readyCond, signalled;
static int creates, createFails = -1, sleeping; static bool mutexInitFails, condInitFails, spurious;
struct TOwn { TOwn() { SX_SHARE(2); } ~TOwn() { SX_SHARE(3); } };      // bookkeeping of this file
static bool t_has(std::vector<pthread_mutex_t*>& v, pthread_mutex_t* m) { for (auto x : v) if (x == m) return true; return false; }
static int t_pending() { int n = 0; for (auto t : threads) n += !t->started; return n; }
static void t_run(VThread* t) { sx_assert(held.empty(), "harness: nested thread"); { TOwn own; t->started = true; } t->fn(t->arg); sx_assert(held.empty(), "a thread that ends holds no lock"); TOwn own; t->ended = true; }
// with many threads: that many are left waiting at any moment (-1: every choice), and the newest or the oldest runs first
static int leave = -1; static bool newest;
static int t_choose(int n) { return leave < 0 ? (int)sx_pick("thread", n) : newest ? n - 1 : 0; }
static void t_point() {        // a moment at which another thread may get ahead
    if (!held.empty()) return;
    int n;
    while ((n = t_pending())) {
        if (leave >= 0 && n <= leave) return;
        int k = leave < 0 ? (int)sx_pick("thread", n + 1) : t_choose(n);
        if (k == n) return;
        for (auto t : threads) if (!t->started && k-- == 0) { t_run(t); break; }
    }
}
static bool t_released() { bool r = true; for (auto t : threads) r &= t->freed; return r; }
static void t_drain() { while (t_pending()) { int k = t_choose(t_pending()); for (auto t : threads) if (!t->started && k-- == 0) { t_run(t); break; } } }
extern "C" {
int vf_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { if (mutexInitFails) return ENOMEM; TOwn own; memset(m, 0, sizeof *m); if (!t_has(ready, m)) ready.push_back(m); return 0; }
int vf_pthread_mutex_destroy(pthread_mutex_t* m) { sx_assert(!t_has(held, m), "a lock that is held is not destroyed"); TOwn own; for (size_t i = 0; i < ready.size(); i++) if (ready[i] == m) ready.erase(ready.begin() + i--); return 0; }
int vf_pthread_mutex_lock(pthread_mutex_t* m) {
    t_point();
    sx_assert(!t_has(held, m), "no thread waits for a lock that it holds");
    SX_SHARE(2);    // what a lock protects may be changed while it is held
    held.push_back(m);
    return 0;
}
int vf_pthread_mutex_trylock(pthread_mutex_t* m) { t_point(); if (t_has(held, m)) return EBUSY; SX_SHARE(2); held.push_back(m); return 0; }
int vf_pthread_mutex_unlock(pthread_mutex_t* m) {
    sx_assert(t_has(held, m), "only a lock that is held is released");
    for (size_t i = 0; i < held.size(); i++) if (held[i] == m) { held.erase(held.begin() + i); break; }
    SX_SHARE(3);
    t_point();
    return 0;
}
int vf_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { if (condInitFails) return ENOMEM; TOwn own; memset(c, 0, sizeof *c); return 0; }
int vf_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int vf_pthread_cond_signal(pthread_cond_t* c) { TOwn own; signalled.push_back(c); return 0; }   // reaches a thread that waits now
int vf_pthread_cond_broadcast(pthread_cond_t* c) { TOwn own; signalled.push_back(c); return 0; }
int vf_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    sx_assert(held.size() == 1 && held[0] == m, "the lock is held by the thread that waits, and no other");
    held.clear();
    signalled.clear();
    SX_SHARE(3);
    for (;;) {
        bool sig = false;
        for (auto x : signalled) sig |= x == c;
        int n = t_pending();
        if (sig && (!n || leave >= 0 || sx_pick("awake", 2))) break;
        if (!sig && !spurious && (leave < 0 || n % 64 == 1) && sx_pick("spurious", 2)) { spurious = true; break; }
        sx_assert(n > 0, "nobody waits for ever");
        int k = t_choose(n);
        for (auto t : threads) if (!t->started && k-- == 0) { t_run(t); break; }
    }
    SX_SHARE(2);
    held.push_back(m);
    return 0;
}
int vf_pthread_attr_init(pthread_attr_t* a) { memset(a, 0, sizeof *a); return 0; }   // its first byte: whether detached
int vf_pthread_attr_destroy(pthread_attr_t*) { return 0; }
int vf_pthread_attr_setdetachstate(pthread_attr_t* a, int s) { *(char*)a = s == PTHREAD_CREATE_DETACHED; return 0; }
int vf_pthread_attr_setstacksize(pthread_attr_t*, size_t) { return 0; }
int vf_pthread_mutexattr_init(pthread_mutexattr_t*) { return 0; }
int vf_pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int vf_pthread_mutexattr_settype(pthread_mutexattr_t*, int) { return 0; }
int vf_pthread_detach(pthread_t t) { TOwn own; sx_assert(!threads[t - 101]->freed, "a thread is released once"); threads[t - 101]->freed = true; return 0; }
int vf_pthread_join(pthread_t t, void** r) {
    sx_assert(held.empty(), "a thread that is waited for can go on");
    VThread* v = threads[t - 101];
    sx_assert(!v->freed, "a thread is released once");
    if (!v->started) t_run(v);
    sx_assert(v->ended, "nobody waits for ever");
    TOwn own; v->freed = true;
    return 0;
}
pthread_t vf_pthread_self(void) { for (size_t i = threads.size(); i-- > 0;) if (threads[i]->started && !threads[i]->ended) return 101 + i; return 1; }
int vf_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (creates++ == createFails) return EAGAIN;
    { TOwn own; VThread* v = new VThread(); v->fn = fn; v->arg = arg; v->started = v->ended = false; v->freed = a && *(const char*)a; threads.push_back(v); }
    if (t) *t = (pthread_t)(100 + threads.size());   // 101: the first thread
    t_point();
    return 0;
}
}
