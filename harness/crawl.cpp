// P30: a crawl fetches every page it can reach over allowed links once, and stores every formula once.
#include <string.h>
#include "memfs.hpp"
#include <pthread.h>
#include <time.h>
#include <set>
#include "crawler/types/Robotstxt.hpp"
#include "crawler/types/SharedQueue.hpp"
#include "crawler/utils/Page.hpp"
#include "crawler/utils/MwsGetMath.hpp"
#include "crawler/crawler/MwsCrawler.hpp"
#ifndef NPG
#define NPG 3
#endif
#ifndef NLINK
#define NLINK 2
#endif
typedef std::string S;
int verbose; // of MathWebSearch
int curlWriter(char*, size_t, size_t, std::string*) { return 0; }
namespace url_canon { bool ReadUTFChar(const char* s, int* begin, int length, unsigned* out) { *out = (unsigned char)s[*begin]; return true; } }
static const char* const PAGES[] = {"http://h/", "http://h/?q", "http://h/q", "http://h/x/d"};
// ways to name a page, and which page that is
struct Way { const char* url; int page; };
static const Way WAYS[] = {{nullptr, -1}, {"http://h/?q", 1}, {"http://h/?q#f", 1}, {"http://h/", 0}, {"http://h/q", 2}, {"http://h/q#b", 2}, {"http://h/x/d", 3}};
static const char DIR_[] = "d x"; static const char ROBOTS[] = "User-agent: *\nDisallow: /x\n";
struct Request { S start; int first; int count; std::vector<S> dont; std::vector<S> formulas; std::vector<int> fetched; bool done; };
static std::vector<Request> reqs; static int cur = -1; static bool robotsBan;
static int links[4][NLINK]; static bool linked[4]; static int nmath[4]; static S text[4][2]; static int extraMath; static bool spoilt;
static void oracle();
static int allowed(const Request& r, int p) { S path = PAGES[p] + 8; if (robotsBan && !path.compare(0, 2, "/x")) return 0; for (auto& d : r.dont) if (!path.compare(0, d.size(), d)) return 0; return 1; }
static int pageOf(const S& u) { for (int i = 0; i < NPG; i++) if (u == PAGES[i]) return i; return -1; }
// ---- downloading
static S bare(const GURL& g) { S s = g.spec(); size_t h = s.find('#'); return s.substr(0, h); }
static void next() { sx_assert(cur + 1 < (int)reqs.size(), "nothing is crawled that was not asked for"); cur++; }
Page::Page(GURL g) : url(g), downloadedHeader(0), downloadedContent(0) {}
Page::Page(S s) : url(GURL(s)), downloadedHeader(0), downloadedContent(0) {}
const S Page::getUrl() { return bare(url); }
const S& Page::getHeader() { return header; }
const S& Page::getContent() { S u = bare(url); if (u == "http://h/robots.txt") content = robotsBan ? ROBOTS : ""; else content = "page"; return content; }
S Page::getModifiedDate() { return ""; }
std::vector<GURL> Page::getLinks() {
    std::vector<GURL> out; int p = pageOf(bare(url));
    sx_assert(p >= 0, "a page of the site is fetched");
    if (!linked[p]) { linked[p] = true; int least = 0;
        for (int k = 0; k < NLINK; k++) { unsigned n = NPG == 2 ? 4 : NPG == 3 ? 6 : 7; links[p][k] = least + (int)sx_pick("link", n - least); if (!links[p][k]) break;
#ifdef SORTED
            least = links[p][k];
#endif
        } }
    for (int k = 0; k < NLINK && links[p][k]; k++) out.push_back(GURL(WAYS[links[p][k]].url));
    return out;
}
std::set<S> mathml_tags;
namespace mws {
void store_mathml_tags() {}
std::vector<S> get_math(Page& page) {
    int p = pageOf(page.getUrl()); sx_assert(p >= 0, "a page of the site is searched");
    Request& r = reqs[cur]; r.fetched.push_back(p);
    std::vector<S> out;
    for (int k = 0; k < nmath[p]; k++) { out.push_back(text[p][k]); r.formulas.push_back(text[p][k]); }
    for (int k = 0; k < extraMath && p == 1; k++) { out.push_back("<e/>"); r.formulas.push_back("<e/>"); }
    return out;
}
}
// ---- time, threads
static time_t now = 1000; static SharedQueue* shared; static std::queue<QueueNode> hidden; static bool locked, threads; static int arrived;
static void arrive(std::queue<QueueNode>& q) {
    while (arrived < (int)reqs.size() && sx_pick("arrives", 2)) { Request& r = reqs[arrived++]; QueueNode n; n.urlstart = r.start; n.count = r.count; n.dontcrawlnr = (int)r.dont.size(); n.dontcrawl = r.dont; q.push(n); }
}
extern "C" {
time_t vf_time(time_t* t) { now += sx_pick("seconds", 2); if (t) *t = now; return now; }
// the queue is only to be looked at while the lock is held: it is hidden otherwise
int vf_pthread_mutex_lock(pthread_mutex_t* m) { sx_assert(m == &shared->lock && !locked, "the lock of the queue is taken once"); locked = true; arrive(hidden); shared->sharedQueue.swap(hidden);
    return 0; }
int vf_pthread_mutex_unlock(pthread_mutex_t* m) { sx_assert(m == &shared->lock && locked, "the lock of the queue is released once"); locked = false; size_t taken = arrived - shared->sharedQueue.size();
    hidden.swap(shared->sharedQueue); while (!shared->sharedQueue.empty()) shared->sharedQueue.pop();
    if (taken != (size_t)(cur + 1)) { sx_assert(taken == (size_t)(cur + 2), "requests are taken one at a time"); cur++; }
    return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
static int idle;
unsigned vf_sleep(unsigned) { sx_assert(!locked, "the lock is not held while waiting"); 
    if (idle++ > 2) { if (arrived == (int)reqs.size() && cur + 1 == arrived) { oracle(); sx_stop(); } sx_assert(arrived < (int)reqs.size(), "a request that arrived is carried out"); arrived < (int)reqs.size() ? sx_stop() : (void)0; }
    return 0; }
}
extern "C" int vf_stream_read(const char* path, S* out) { MFile* f = mfs_find(path); if (!f) return 0; *out = S(f->data.begin(), f->data.end()); return 1; }
extern "C" int vf_stream_write(const char* path, const char* p, size_t n, int first) { MFile* f = first ? mfs_make(path) : mfs_find(path); f->data.insert(f->data.end(), p, p + n); return 1; }
static bool eq(const S& a, const S& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return !d; }
static void oracle() {
    const S head = "<mws:harvest", tail = "</mws:harvest>", dir = S(DIR_) + "/";
    S all;
    for (auto f : mfs()) {
        S t(f->data.begin(), f->data.end());
        if (f->path == dir + "harvest1000.xml" && spoilt) { sx_assert(t == "old", "harvests that are there already are kept"); continue; }
        sx_assert(f->path.size() > dir.size() + 4 && !f->path.compare(0, dir.size(), dir) && f->path.find('/', dir.size()) == S::npos && !f->path.compare(f->path.size() - 4, 4, ".xml"), "harvests are stored in the directory");
        size_t b = t.find(head); sx_assert(b != S::npos && t.size() >= tail.size() && eq(t.substr(t.size() - tail.size()), tail), "a harvest");
        sx_assert(!t.compare(0, 5, "<?xml") && t.find("xmlns:m=\"http://www.w3.org/1998/Math/MathML\"", b) != S::npos && t.find("xmlns:mws=\"http://search.mathweb.org/ns\"", b) != S::npos, "a harvest declares its namespaces");
        b = t.find('>', b) + 1; while (t[b] == ' ') b++;
        all += t.substr(b, t.size() - tail.size() - b);
    }
    S want; size_t total = 0;
    for (auto& r : reqs) for (auto& f : r.formulas) { want += f; total++; }
    if (reqs.size() > 1 || total <= 8) { // each formula once, in any order
        std::vector<S> left; for (auto& r : reqs) for (auto& f : r.formulas) left.push_back(f);
        size_t at = 0; bool ok = all.size() == want.size();
        while (ok && !left.empty()) { bool hit = false; for (size_t i = 0; i < left.size() && !hit; i++) if (eq(all.substr(at, left[i].size()), left[i])) { at += left[i].size(); left.erase(left.begin() + i); hit = true; } ok = hit; }
        sx_assert(ok, "every formula that was found is stored, once");
    } else sx_assert(all.size() == want.size() && !memcmp(all.data(), want.data(), want.size()), "all formulas that were found are stored, once");
    sx_assert(mfs_open == 0, "files are closed");
    for (auto& r : reqs) {
        bool seen[4] = {false, false, false, false};
        if (r.first < 0) { sx_assert(r.fetched.empty(), "nothing is fetched for an unusable request"); sx_reach("unusable"); continue; }
        for (size_t i = 0; i < r.fetched.size(); i++) {
            int p = r.fetched[i];
            sx_assert(!seen[p], "a page is fetched once"); seen[p] = true;
            bool known = p == r.first;
            for (size_t j = 0; j < i; j++) for (int k = 0; k < NLINK && links[r.fetched[j]][k]; k++) if (WAYS[links[r.fetched[j]][k]].page == p && allowed(r, p)) known = true;
            sx_assert(known, "a page is fetched because it is where the crawl starts or because of an allowed link");
        }
        // what can be reached
        bool reach[4] = {false, false, false, false}; reach[r.first] = true; size_t n = 1;
        for (bool more = true; more;) { more = false; for (int p = 0; p < NPG; p++) if (reach[p] && seen[p]) for (int k = 0; k < NLINK && links[p][k]; k++) { int q = WAYS[links[p][k]].page; if (!reach[q] && allowed(r, q)) { reach[q] = more = true; n++; } else if (!allowed(r, q)) sx_reach("refused link"); } }
        if (r.count >= 0 && r.fetched.size() == (size_t)r.count) { if (n > r.fetched.size()) sx_reach("limit"); }
        else { sx_assert(r.count < 0 || r.fetched.size() < (size_t)r.count, "no more pages are fetched than asked for"); sx_assert(n == r.fetched.size(), "every page that can be reached is fetched"); }
        if (r.fetched.size() > 2) sx_reach("three pages");
    }
    if (reqs.size() > 1) { sx_assert(reqs.size() == (size_t)cur + 1, "every request is carried out"); sx_reach("two requests"); }
    sx_reach("crawled");
}
static Request ask(bool any) {
    Request r; r.done = false; r.first = 0; r.count = -1; r.start = PAGES[0];
#ifdef RULES
    r.first = (int)sx_pick("start", 3) - 1; r.start = r.first < 0 ? "nonsense" : WAYS[r.first ? 2 : 3].url;
    unsigned d = sx_pick("dont", 4); if (d & 1) r.dont.push_back("/b"); if (d & 2) r.dont.push_back("/x");
#endif
    if (any) r.count = (int)sx_pick("count", 4) - 1;
    return r;
}
void sx_main(void) {
    for (int p = 0; p < NPG; p++) {
        nmath[p] = p == 0 ? 1 : p == 1 ? 2 : p == 3;
        for (int k = 0; k < 2; k++) { text[p][k] = S("<f") + char('0' + p) + char('a' + k); char c = (char)sx_u8("c"); sx_assume(c != 0); text[p][k] += c; text[p][k] += '>'; }
    }
#ifdef RULES
    robotsBan = sx_pick("robots", 2);
#endif
#ifdef PACK
    extraMath = 4997 + (int)sx_pick("formulas", 6);
#endif
    spoilt = sx_pick("stored_before", 2);
    if (spoilt) { MFile* f = mfs_make((S(DIR_) + "/harvest1000.xml").c_str()); f->data = {'o', 'l', 'd'}; }
#ifdef QUEUE
    shared = new SharedQueue; threads = true;
    for (int i = 0; i < 2; i++) { Request r = ask(false);
        switch (sx_pick("request", 5)) { case 0: break; case 1: r.count = 1; break; case 2: r.start = PAGES[1]; r.first = 1; break; case 3: r.dont.push_back("/b"); break; default: r.start = "nonsense"; r.first = -1; r.dont.push_back("/b"); }
        reqs.push_back(r); }
    mws::Crawler::run(shared, DIR_);
    sx_fail("the crawler goes on waiting for requests");
#else
    reqs.push_back(ask(true)); cur = 0;
    {
        mws::Crawler c;
        c.addURLStart(reqs[0].start);
        if (reqs[0].count >= 0) c.addCrawlerCount(reqs[0].count);
        for (auto& d : reqs[0].dont) c.dontCrawl(d);
        c.addDataDirectory(DIR_);
        c.start();
    }
    oracle();
#endif
}
