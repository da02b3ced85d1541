// P30: crawls of sites with many pages, long addresses and many links to avoid.
#include <string.h>
#include "memfs.hpp"
#include <pthread.h>
#include <time.h>
#include <set>
#include "crawler/types/Robotstxt.hpp"
#include "crawler/types/SharedQueue.hpp"
#include "crawler/utils/Page.hpp"
#include "crawler/utils/MwsGetMath.hpp"
#include "crawler/crawler/MwsCrawler.hpp"
typedef std::string S;
int verbose;
int curlWriter(char*, size_t, size_t, std::string*) { return 0; }
namespace url_canon { bool ReadUTFChar(const char* s, int* begin, int length, unsigned* out) { *out = (unsigned char)s[*begin]; return true; } }
static int n, kind, len; static std::vector<int> fetched; static S all; static bool locked;
static S addr(int i) { S p = "http://h/"; if (i % 10 == 4) p += S(len, 'l') + "/"; p += "p" + std::to_string(i); if (i % 10 == 7) p += "?q=" + std::to_string(i); return p; }
static S bare(const GURL& g) { S s = g.spec(); size_t h = s.find('#'); return s.substr(0, h); }
static std::map<S, int> number;
static int pageOf(const S& u) { auto i = number.find(u); return i == number.end() ? -1 : i->second; }
static bool avoided(int i) { return i % 10 == 9; }
static void out(int i, std::vector<int>& o) {
    if (kind == 0) { o.push_back(i + 1); if (i % 10 == 8) o.push_back(i + 2); }                        // a chain
    if (kind == 1) { if (i == 0) for (int k = 1; k < n; k++) o.push_back(k); else o.push_back(0); }    // a star
    if (kind == 2) { o.push_back(2 * i + 1); o.push_back(2 * i + 2); o.push_back(i / 2); o.push_back((i * 7) % n); } // a tree with further links
    std::vector<int> r; for (int x : o) if (x < n) r.push_back(x); o = r;
}
Page::Page(GURL g) : url(g), downloadedHeader(0), downloadedContent(0) {}
Page::Page(S s) : url(GURL(s)), downloadedHeader(0), downloadedContent(0) {}
const S Page::getUrl() { return bare(url); }
const S& Page::getHeader() { return header; }
const S& Page::getContent() { content = bare(url) == "http://h/robots.txt" ? "" : "page"; return content; }
S Page::getModifiedDate() { return ""; }
std::vector<GURL> Page::getLinks() {
    std::vector<GURL> r; std::vector<int> o; int p = pageOf(bare(url)); sx_assert(p >= 0, "a page of the site is fetched"); out(p, o);
    for (int x : o) r.push_back(GURL(addr(x) + (x % 3 ? "" : "#f" + std::to_string(p)))); return r;
}
std::set<S> mathml_tags;
static S formula(int i, int k) { return "<f" + std::to_string(i) + "." + std::to_string(k) + (i == 5 ? S(len, 'x') : "") + "/>"; }
namespace mws {
void store_mathml_tags() {}
std::vector<S> get_math(Page& page) {
    int p = pageOf(page.getUrl()); sx_assert(p >= 0, "a page of the site is searched"); fetched.push_back(p);
    std::vector<S> o; for (int k = 0; k <= p % 3; k++) o.push_back(formula(p, k)); return o;
}
}
static time_t now = 1000;
extern "C" {
time_t vf_time(time_t* t) { now += fetched.size() % 2; if (t) *t = now; return now; }
int vf_pthread_mutex_lock(pthread_mutex_t*) { sx_assert(!locked, "locked once"); locked = true; return 0; }
int vf_pthread_mutex_unlock(pthread_mutex_t*) { sx_assert(locked, "released once"); locked = false; return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
unsigned vf_sleep(unsigned) { return 0; }
}
extern "C" int vf_stream_read(const char* path, S* o) { MFile* f = mfs_find(path); if (!f) return 0; *o = S(f->data.begin(), f->data.end()); return 1; }
extern "C" int vf_stream_write(const char* path, const char* p, size_t k, int first) { MFile* f = first ? mfs_make(path) : mfs_find(path); f->data.insert(f->data.end(), p, p + k); return 1; }
void sx_main(void) {
    static const int N[] = {9, 40, 130}, L[] = {20, 260, 5000};
    n = N[sx_pick("pages", 3)]; kind = sx_pick("links", 3); len = L[sx_pick("length", 3)];
    int limit = -1; uint32_t cnt = sx_u32("count");
    switch (sx_pick("limit", 3)) { case 1: sx_assume((cnt >= 7) & (cnt <= 9)); limit = (int)cnt; break; case 2: sx_assume((cnt >= (unsigned)n * 9 / 10 - 2) & (cnt <= (unsigned)n * 9 / 10 + 2)); limit = (int)cnt; break; }
    bool avoid = sx_pick("avoid", 2);
    for (int i = 0; i < n; i++) number[addr(i)] = i;
    {
        mws::Crawler c;
        c.addURLStart(addr(0));
        if (limit >= 0) c.addCrawlerCount(limit);
        if (avoid) { for (int i = 0; i < 100; i++) c.dontCrawl("/none" + std::to_string(i)); for (int i = 9; i < n; i += 10) c.dontCrawl("/p" + std::to_string(i)); }
        c.addDataDirectory("d");
        c.start();
    }
    std::set<int> reach{0}; std::vector<int> todo{0};
    while (!todo.empty()) { int p = todo.back(); todo.pop_back(); std::vector<int> o; out(p, o); for (int x : o) { S path = addr(x).substr(8); bool no = false; if (avoid) for (int i = 9; i < n; i += 10) { S d = "/p" + std::to_string(i); no |= !path.compare(0, d.size(), d); } if (!no && reach.insert(x).second) todo.push_back(x); } }
    std::set<int> seen; for (int p : fetched) { sx_assert(seen.insert(p).second, "a page is fetched once"); sx_assert(reach.count(p), "a page is fetched because of an allowed link"); }
    limit = (int)sx_concretize(limit);
    size_t want = limit >= 0 && (size_t)limit < reach.size() ? limit : reach.size();
    sx_assert(fetched.size() == want, "every page that can be reached is fetched, or as many as asked for");
    if (want < reach.size()) sx_reach("limit"); if (want > 100) sx_reach("many pages"); if (avoid) sx_reach("avoided");
    size_t total = 0, size = 0; std::map<S, int> left;
    for (int p : fetched) for (int k = 0; k <= p % 3; k++) { left[formula(p, k)]++; total++; }
    const S tail = "</mws:harvest>";
    for (auto f : mfs()) {
        S t(f->data.begin(), f->data.end()); size_t b = t.find("<mws:harvest"); sx_assert(b != S::npos && t.size() >= tail.size() && t.substr(t.size() - tail.size()) == tail, "a harvest");
        b = t.find("<f", b); if (b == S::npos) continue;
        while (t[b] == '<' && t[b + 1] == 'f') { size_t e = t.find("/>", b) + 2; sx_assert(left[t.substr(b, e - b)]-- == 1, "every formula that was found is stored, once"); size++; b = e; while (t[b] == '\n' || t[b] == ' ') b++; }
        sx_assert(t.size() - b == tail.size(), "nothing else is stored");
    }
    sx_assert(size == total, "every formula that was found is stored");
    sx_assert(mfs_open == 0 && !locked, "everything is released");
    sx_observe("fetched", fetched.size());
}
