// P35: the crawler daemon program.
#include "threads.hpp"
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include "crawler/daemon/CrawlerDaemon.hpp"
#include "crawler/types/SharedQueue.hpp"
#include "crawler/crawler/MwsCrawler.hpp"
#include "common/utils/FlagParser.hpp"
#include "build-gen/config.h"
extern "C" int vf_main(int argc, char* argv[]);
static bool hasPort, portOk, hasDir, startFails, exited; static int port; static std::string dir;
static int started, stopped, crawls; static SharedQueue *served, *crawled;
static struct sigaction act[65]; static bool have[65], blocked[65], pending[65]; static int sigToSend; static bool sent, handled;
static void deliver(int s) { handled = true; act[s].sa_handler(s); }
static void point() {
    if (held.empty()) t_point();
    if (sent || !sigToSend || !have[sigToSend] || !sx_pick("signalnow", 2)) return;
    sent = true;
    if (blocked[sigToSend]) pending[sigToSend] = true; else deliver(sigToSend);
}
mws::Crawler::Crawler() {}
mws::Crawler::~Crawler() {}
void mws::Crawler::run(SharedQueue* q, const char* d) {
    crawls++;
    sx_assert(held.empty(), "crawling blocks nobody");
    sx_assert(std::string(d) == (hasDir ? std::string(HARVESTFILES_PATH) + "/" + dir : std::string(HARVESTFILES_PATH)), "harvests go to the data directory, or the one below it that was given");
    crawled = q;
}
CrawlerDaemon::CrawlerDaemon() {}
CrawlerDaemon::~CrawlerDaemon() {}
int CrawlerDaemon::start(int p, SharedQueue* q) {
    point();
    sx_assert(p == port && portOk, "the port that was asked for");
    sx_assert(!started, "started once");
    if (startFails) return -1;
    started++; served = q;
    for (int i = sx_pick("requests", 3); i; i--) { QueueNode n; n.urlstart = "u"; n.count = i; n.dontcrawlnr = 0; q->sharedQueue.push(n); }
    point();
    return 0;
}
void CrawlerDaemon::stop() { sx_assert(started == 1 && !stopped, "a running daemon is stopped once"); stopped++; }
static void finish(int r) {
    bool ok = portOk && !startFails && createFails != 0 && !mutexInitFails && !condInitFails;
    sx_assert((r == 0) == ok, "success is reported exactly if the daemon ran");
    if (!ok) { sx_assert(!started || stopped, "nothing is served after a failure"); sx_assert(portOk || (!creates && !crawls), "nothing is started without a valid port"); sx_reach(portOk ? "failed" : "no port"); return; }
    sx_assert(sigToSend && handled, "the daemon runs until a signal");
    sx_assert(started == 1 && stopped == 1, "the daemon is stopped");
    t_drain();
    sx_assert(crawls == 1 && crawled == served, "one crawl works on the requests of the daemon");
    sx_reach("stopped");
}
extern "C" {
void vf_exit(int c) { finish(c); sx_stop(); }
int vf_sigaction(int s, const struct sigaction* n, struct sigaction* o) { point(); if (o) *o = act[s]; if (n) { act[s] = *n; have[s] = n->sa_handler != SIG_DFL; } return 0; }
typedef void (*sigh)(int);
sigh vf_signal(int s, sigh h) { struct sigaction n; memset(&n, 0, sizeof n); n.sa_handler = h; vf_sigaction(s, &n, nullptr); return SIG_DFL; }
int vf_sigemptyset(sigset_t* s) { memset(s, 0, sizeof *s); return 0; }
int vf_sigaddset(sigset_t* s, int k) { ((unsigned char*)s)[k / 8] |= 1 << (k % 8); return 0; }
int vf_sigprocmask(int how, const sigset_t* n, sigset_t* o) {
    point();
    if (o) { memset(o, 0, sizeof *o); for (int k = 1; k < 65; k++) if (blocked[k]) vf_sigaddset(o, k); }
    if (n) for (int k = 1; k < 65; k++) {
        bool b = (((const unsigned char*)n)[k / 8] >> (k % 8)) & 1;
        if (how == SIG_BLOCK) blocked[k] |= b; else if (how == SIG_UNBLOCK) blocked[k] &= !b; else blocked[k] = b;
    }
    for (int k = 1; k < 65; k++) if (pending[k] && !blocked[k]) { pending[k] = false; deliver(k); }
    point();
    return 0;
}
int vf_pthread_sigmask(int how, const sigset_t* n, sigset_t* o) { return vf_sigprocmask(how, n, o); }
int vf_sigsuspend(const sigset_t* m) {
    point();
    t_drain();
    sx_assert(started == 1 && !stopped && crawls == 1 && crawled == served, "serving and crawling while waiting for a signal");
    if (!sigToSend) { sx_reach("running"); sx_stop(); }
    sx_assert(!sent || pending[sigToSend], "a stop signal that has arrived is not forgotten");
    sx_assert(!((((const unsigned char*)m)[sigToSend / 8] >> (sigToSend % 8)) & 1), "the signals can arrive while waiting");
    sent = true; pending[sigToSend] = false;
    deliver(sigToSend);
    errno = EINTR; return -1;
}
}
extern "C" void sx_main(void) {
    std::vector<std::string> args(1, "crawlerd");
    bool first = sx_pick("order", 2), lng = sx_pick("long", 2);
    hasDir = sx_pick("data", 2); hasPort = sx_pick("port", 2);
    if (hasDir) { int n = 1 + (int)sx_pick("length", 2); for (int i = 0; i < n; i++) { unsigned char c = sx_u8("byte"); sx_assume(c != 0 && c != '-'); dir += (char)c; } }
    std::string num;
    if (hasPort) {
        bool bad = sx_pick("negative", 2); long v = 0;
        if (bad) num = "-";
        int n = 1 + (int)sx_pick("digits", 5);
        for (int i = 0; i < n; i++) { unsigned char d = sx_u8("digit"); sx_assume(d <= 9); num += (char)('0' + d); v = v * 10 + d; }
        portOk = !bad && v > 0 && v < 65536; port = (int)v;
    }
    for (int k = 0; k < 2; k++)
        if ((k == 0) == first) { if (hasPort) { args.push_back(lng ? "--port" : "-p"); args.push_back(num); } }
        else if (hasDir) { args.push_back(lng ? "--data-directory" : "-d"); args.push_back(dir); }
    std::vector<char*> argv;
    for (auto& s : args) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); argv.push_back(p); }
    argv.push_back(nullptr);
    static const int SIG[] = {0, SIGINT, SIGTERM};
    sigToSend = SIG[sx_pick("signal", 3)];
    switch (sx_pick("failure", 5)) { case 1: startFails = true; break; case 2: createFails = 0; break; case 3: mutexInitFails = true; break; case 4: condInitFails = true; break; }
    finish(vf_main((int)args.size(), argv.data()));
}
