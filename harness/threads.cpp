// P35: threads: what is handed over is run exactly once, and clean() waits for it.
#include "threads.hpp"
#include "common/thread/ThreadWrapper.hpp"
#ifndef NRUN
#define NRUN 3
#endif
static int args[NRUN + 2], ran[NRUN + 2], other[NRUN + 2]; static bool over;
static void* routine(void* a) {
    long k = (int*)a - args;
    sx_assert(k >= 0 && k < NRUN + 2, "the argument that was given");
    ran[k]++;
    sx_assert(!over, "nothing runs after clean()");
    t_point();
    return a;
}
static void* routine2(void* a) { routine(a); other[(int*)a - args]++; return nullptr; }
extern "C" void sx_main(void) {
#ifdef MANY
    static const int LEFT[] = {0, 1, 7, 1000}, BAD[] = {0, 1, NRUN - 1, NRUN + 2}; leave = LEFT[sx_pick("left", 4)]; newest = sx_pick("newest", 2);
    int bad = BAD[sx_pick("failure", 4)];
#else
    int bad = (int)sx_pick("failure", NRUN + 3);   // the k-th thread cannot be started; no lock; no condition
#endif
    if (bad == NRUN) mutexInitFails = true; else if (bad == NRUN + 1) condInitFails = true; else if (bad < NRUN) createFails = bad;
    int r = ThreadWrapper::init();
    sx_assert((r != 0) == (mutexInitFails || condInitFails), "init() reports failures");
    if (r) { sx_assert(r < 0, "by a negative value"); sx_assert(ready.empty(), "what was initialised is released"); sx_reach("no lock"); return; }
    for (int round = 0; round < 2; round++) {
        
#ifdef MANY
        static const int MANYRUN[] = {1, 40, NRUN}; int n = round ? 1 : MANYRUN[sx_pick("routines", 3)];
#else
        int n = round ? 1 : (int)sx_pick("routines", NRUN + 1);
#endif
        int at = round ? NRUN : 0;
        int res[NRUN + 2], two[NRUN + 2], fails[NRUN + 2];
        if (round && ThreadWrapper::init() != 0) sx_fail("init() again");
        SX_SHARE(1);        // from now on, nothing that exists changes but under a lock
        for (int i = at; i < at + n; i++) {
            
#ifdef MANY
            two[i] = i % 3 == 1;
#else
            two[i] = (int)sx_pick("which", 2);
#endif
           
            fails[i] = creates == createFails;
            t_point();
            res[i] = ThreadWrapper::run(two[i] ? routine2 : routine, &args[i]);
            sx_assert(held.empty(), "no lock is held after run()");
            sx_assert((res[i] != 0) == fails[i], "run() fails exactly if the thread cannot be started");
            if (fails[i]) sx_reach("failed");
        }
        t_point();
        ThreadWrapper::clean();
        sx_assert(held.empty(), "no lock is held after clean()");
        for (int i = at; i < at + n; i++) sx_assert(ran[i] == (fails[i] ? 0 : 1) && other[i] == (fails[i] ? 0 : two[i]), "every routine has run once, with its argument, when clean() returns");
        for (auto t : threads) sx_assert(t->started, "no thread is left when clean() returns");
        sx_assert(t_released(), "every thread is detached, or waited for");
        if (n > 1) sx_reach("several");
        if (!n) sx_reach("none");
        SX_SHARE(0);
        over = true;
        int before = creates;
        r = ThreadWrapper::run(routine, &args[NRUN + 1]);
        t_drain();
        sx_assert(held.empty() && ran[NRUN + 1] == 0, "nothing is started after clean()");
        sx_assert(r != 0, "run() reports that nothing was started");
        if (creates != before) createFails = -1;
        over = false;
        if (!sx_pick("again", 2)) break;
    }
    if (spurious) sx_reach("spurious");
}
