// P32: a posted crawl request reaches the queue exactly as it was posted, whatever pieces it arrives in.
#include <stdarg.h>
#include "memfs.hpp"
#include <microhttpd.h>
#include <pthread.h>
#include "crawler/daemon/CrawlerDaemon.hpp"
#include "build-gen/config.h"
#ifndef NV
#define NV 2
#endif
#ifndef MAXLEN
#define MAXLEN 2
#endif
#ifndef NREQ
#define NREQ 1
#endif
typedef std::string S;
int verbose;
extern char askpage[]; 
static bool eq(const S& a, const S& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return !d; }
struct Field { const char* key; S value; };
struct Piece { int field; size_t off, n; };
struct Request { const char* method; std::vector<Field> fields; std::vector<Piece> pieces; size_t at; bool begun, done, posted; void* ptr; int responses; S answer; bool queueFails, noPost; };
struct MHD_Response { const char* p; size_t n; int refs; };
struct Post { MHD_PostDataIterator it; void* cls; Request* r; };
static Request* cur; static int processors, responses, started; static bool startFails; static S page;
static MHD_AccessHandlerCallback access_cb; static void* access_cls; static MHD_RequestCompletedCallback done_cb; static void* done_cls;
static SharedQueue* shared; static std::queue<QueueNode> hidden; static bool locked;
extern "C" {
int pthread_mutexattr_init(pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
int vf_pthread_mutex_lock(pthread_mutex_t* m) { sx_assert(m == &shared->lock && !locked, "the lock of the queue is taken once"); locked = true; shared->sharedQueue.swap(hidden); return 0; }
int vf_pthread_mutex_unlock(pthread_mutex_t* m) { sx_assert(m == &shared->lock && locked, "the lock of the queue is released once"); locked = false; hidden.swap(shared->sharedQueue); return 0; }
struct MHD_Daemon* MHD_start_daemon(unsigned flags, uint16_t port, MHD_AcceptPolicyCallback apc, void*, MHD_AccessHandlerCallback dh, void* dh_cls, ...) {
    sx_assert(port == 9080, "the port that was given"); access_cb = dh; access_cls = dh_cls; sx_assert(!apc, "everybody may connect");
    va_list ap; va_start(ap, dh_cls);
    for (;;) {
        int o = va_arg(ap, int);
        if (o == MHD_OPTION_END) break;
        else if (o == MHD_OPTION_NOTIFY_COMPLETED) { done_cb = va_arg(ap, MHD_RequestCompletedCallback); done_cls = va_arg(ap, void*); }
        else if (o == MHD_OPTION_CONNECTION_LIMIT || o == MHD_OPTION_CONNECTION_TIMEOUT || o == MHD_OPTION_THREAD_POOL_SIZE || o == MHD_OPTION_PER_IP_CONNECTION_LIMIT) (void)va_arg(ap, unsigned);
        else if (o == MHD_OPTION_CONNECTION_MEMORY_LIMIT) (void)va_arg(ap, size_t);
        else sx_assert(false, "harness: unknown daemon option");
    }
    va_end(ap);
    if (startFails) return nullptr;
    started++; return (struct MHD_Daemon*)malloc(1);
}
void MHD_stop_daemon(struct MHD_Daemon* d) { sx_assert(started == 1, "the server is stopped once"); started--; free(d); }
static struct MHD_Response* response(size_t n, void* p) { MHD_Response* r = new MHD_Response(); r->p = (const char*)p; r->n = n; r->refs = 1; responses++; return r; }
struct MHD_Response* MHD_create_response_from_buffer(size_t n, void* p, enum MHD_ResponseMemoryMode m) { sx_assert(m != MHD_RESPMEM_MUST_FREE, "pages are kept"); return response(n, p); }
struct MHD_Response* MHD_create_response_from_data(size_t n, void* p, int mustFree, int) { sx_assert(!mustFree, "pages are kept"); return response(n, p); }
enum MHD_Result MHD_queue_response(struct MHD_Connection* c, unsigned status, struct MHD_Response* r) { sx_assert((Request*)c == cur && r && status == 200, "the response to the request"); if (cur->queueFails) return MHD_NO; cur->responses++; cur->answer.assign(r->p, r->n); return MHD_YES; }
void MHD_destroy_response(struct MHD_Response* r) { if (--r->refs == 0) { delete r; responses--; } }
struct MHD_PostProcessor* MHD_create_post_processor(struct MHD_Connection* c, size_t n, MHD_PostDataIterator it, void* cls) {
    sx_assert((Request*)c == cur && n >= 256, "a post processor for the connection"); if (cur->noPost) return nullptr;
    Post* p = new Post(); p->it = it; p->cls = cls; p->r = cur; processors++; cur->posted = true; return (struct MHD_PostProcessor*)p;
}
// the data given stand for the next pieces of the request
enum MHD_Result MHD_post_process(struct MHD_PostProcessor* pp, const char*, size_t n) {
    Post* p = (Post*)pp; sx_assert(p->r == cur, "the post processor of the request");
    for (size_t i = 0; i < n && cur->at < cur->pieces.size(); i++) {
        const Piece& x = cur->pieces[cur->at++]; const Field& f = cur->fields[x.field];
        char* d = (char*)malloc(x.n); if (x.n) memcpy(d, f.value.data() + x.off, x.n); // not terminated
        enum MHD_Result r = p->it(p->cls, MHD_POSTDATA_KIND, f.key, nullptr, nullptr, nullptr, d, x.off, x.n);
        free(d);
        if (r == MHD_NO) return MHD_NO;
    }
    return MHD_YES;
}
enum MHD_Result MHD_destroy_post_processor(struct MHD_PostProcessor* pp) { delete (Post*)pp; processors--; return MHD_YES; }
}
extern "C" int vf_stream_read(const char* path, S* out) { MFile* f = mfs_find(path); if (!f) return 0; *out = S(f->data.begin(), f->data.end()); return 1; }
extern "C" int vf_stream_write(const char*, const char*, size_t, int) { return 0; }
static int number(const S& s) { size_t i = 0; while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; int n = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') n = n * 10 + (s[i++] - '0'); return neg ? -n : n; }
static void finish(Request& r, enum MHD_RequestTerminationCode toe) { r.done = true; if (r.begun) done_cb(done_cls, (struct MHD_Connection*)&r, &r.ptr, toe); }
// one call of the library
static bool step(Request& r) {
    cur = &r; size_t left = 0; char block[8] = "data"; 
    bool post = !strcmp(r.method, "POST");
    if (r.begun && r.at < r.pieces.size()) 
#ifdef MANY
        left = r.pieces.size();
#else
        left = 1 + (r.pieces.size() - r.at > 1 ? sx_pick("together", 2) : 0);
#endif
    int before = r.responses; bool first = !r.begun; if (first) left = 0; r.begun = true;
    size_t gave = left;
    int ret = access_cb(access_cls, (struct MHD_Connection*)&r, "/", r.method, "HTTP/1.1", left ? block : nullptr, &left, &r.ptr);
    if (ret == MHD_NO) { sx_assert(r.noPost || r.queueFails, "a request is dropped only when a library call failed"); sx_assert(r.responses == before, "no response"); finish(r, MHD_REQUEST_TERMINATED_WITH_ERROR); sx_reach("dropped"); return false; }
    if (r.responses > before) { sx_assert(gave == 0 || !post, "the answer follows the whole request"); finish(r, MHD_REQUEST_TERMINATED_COMPLETED_OK); return true; }
    sx_assert(first || gave, "a complete request is answered"); sx_assert(left == 0, "all data are taken");
    return false;
}
static bool fits(const S& v) { return v.size() >= 1 && v.size() <= 100; }
static void makeFields(Request& r) {
    static const char* KEYS[] = {"urlstart", "count", "dontcrawl", "urlstar", "dontcrawls", "countt"};
    r.at = 0; r.begun = r.done = r.posted = r.queueFails = r.noPost = false; r.ptr = nullptr; r.responses = 0;
#ifdef MANY
    r.method = "POST";
    r.fields.push_back(Field{"urlstart", "u"});
    int n = 126 + (int)sx_pick("fields", 5);
    for (int i = 0; i < n; i++) { Field f; f.key = "dontcrawl"; f.value = i < 126 ? S(1 + i % 3, 'd') : S(1 + sx_pick("length", 3), 'e'); r.fields.push_back(f); }
    if (sx_pick("count", 2)) r.fields.push_back(Field{"count", "3"});
    bool split = sx_pick("split", 2);
    for (size_t i = 0; i < r.fields.size(); i++) { size_t v = r.fields[i].value.size(), a = split && v > 1 ? v - 1 : v; r.pieces.push_back(Piece{(int)i, 0, a}); if (a < v) r.pieces.push_back(Piece{(int)i, a, v - a}); }
#else
    static const char* METHODS[] = {"POST", "GET", "PUT"};
#ifdef LONG
    const bool one = false;
#else
    const bool one = NREQ == 1;
#endif
    r.method = METHODS[one ? sx_pick("method", 3) : 0];
    if (strcmp(r.method, "POST")) return;
    unsigned n = sx_pick("fields", NV + 1);
    for (unsigned i = 0; i < n; i++) {
        Field f; f.key = KEYS[sx_pick("key", one ? 6 : 3)];
#ifdef LONG
        static const int L[] = {1, 100, 101, 200}; unsigned len = L[sx_pick("length", 4)];
        f.value = S(len, 'v'); char c = (char)sx_u8("last"); sx_assume(c != 0); f.value[len - 1] = c;
#else
        unsigned len = NREQ == 1 ? sx_pick("length", MAXLEN + 1) : 1;
        for (unsigned k = 0; k < len; k++) { char c = (char)sx_u8("byte"); sx_assume(c != 0); f.value += c; }
#endif
        r.fields.push_back(f);
        // pieces
        size_t at = 0;
        if (!len) r.pieces.push_back(Piece{(int)i, 0, 0});
        else {
#ifdef LONG
            static const size_t C[] = {0, 1, 50, 100}; size_t a = C[len > 1 ? sx_pick("cut", 4) : 0], b = len == 200 && a < 100 && sx_pick("cut2", 2) ? 100 : 0;
            if (a >= len) a = 0; if (a > 0) { r.pieces.push_back(Piece{(int)i, 0, a}); at = a; } if (b > 0) { r.pieces.push_back(Piece{(int)i, at, b - at}); at = b; }
            r.pieces.push_back(Piece{(int)i, at, len - at});
#else
            while (at < len) { size_t k = len - at > 1 ? 1 + sx_pick("cut", (uint32_t)(len - at)) : 1; r.pieces.push_back(Piece{(int)i, at, k}); at += k; }
            if (NREQ == 1 && sx_pick("closing", 2)) r.pieces.push_back(Piece{(int)i, len, 0});
#endif
        }
    }
    if (one) { unsigned x = sx_pick("failing", 3); r.noPost = x == 1; r.queueFails = x == 2; }
#endif
}
static void check(const Request& r, const QueueNode& q) {
    S url; int count = -1; std::vector<S> dont;
    for (auto& f : r.fields) { if (!strcmp(f.key, "urlstart")) url = fits(f.value) ? f.value : S(); else if (!strcmp(f.key, "count")) { count = fits(f.value) ? number(f.value) : 0; if (!count) count = -1; } else if (!strcmp(f.key, "dontcrawl") && fits(f.value) && dont.size() < 128) dont.push_back(f.value); }
    sx_assert(eq(q.urlstart, url), "the crawl starts where it was asked to");
#ifndef LONG
    sx_assert(q.count == count, "as many pages as asked for, or all");
#endif
    sx_assert(q.dontcrawlnr == (int)dont.size() && q.dontcrawl.size() == dont.size(), "as many links to avoid as posted");
    for (size_t i = 0; i < dont.size(); i++) sx_assert(eq(q.dontcrawl[i], dont[i]), "each link to avoid");
    if (dont.size()) sx_reach("avoids"); if (count > 0) sx_reach("count"); if (dont.size() == 128) sx_reach("full");
}
void sx_main(void) {
#ifdef ASKPAGE
    unsigned k = sx_pick("page", 5); static const int SZ[] = {0, 3, 4095, 4096, 5000};
    bool have = sx_pick("there", 2);
    if (have) { MFile* f = mfs_make(GETRESPONSE_PATH); f->data.assign(SZ[k], 'p'); page = S(SZ[k], 'p'); }
#else
    { MFile* f = mfs_make(GETRESPONSE_PATH); page = "ask"; f->data.assign(page.begin(), page.end()); }
#endif
    shared = new SharedQueue;
    CrawlerDaemon d;
    sx_assert(mfs_open == 0, "files are closed");
    startFails = sx_pick("start_fails", 2);
    int st = d.start(9080, shared);
    sx_assert((st == 0) == !startFails, "a server that cannot be started is reported");
    if (st) { sx_reach("not started"); return; }
    uint64_t live = sx_live_heap();
    {
        std::vector<Request> rs(NREQ); std::vector<int> order;
        for (auto& r : rs) makeFields(r);
        for (;;) {
            int open = 0, which = 0; for (auto& r : rs) open += !r.done;
            if (!open) break;
            int skip = open > 1 ? (int)sx_pick("which", open) : 0;
            for (int i = 0; i < NREQ; i++) if (!rs[i].done && skip-- == 0) { which = i; break; }
            Request& r = rs[which];
            if (sx_pick("aborted", 2)) { cur = &r; finish(r, MHD_REQUEST_TERMINATED_CLIENT_ABORT); sx_reach("aborted"); continue; }
            if (step(r)) { bool url = false; for (auto& f : r.fields) if (!strcmp(f.key, "urlstart")) url = fits(f.value); bool post = !strcmp(r.method, "POST");
                if (!strcmp(r.method, "GET")) {
#ifdef ASKPAGE
                    if (page.size() < 4096) sx_assert(r.answer == page, "the page to ask for a crawl"); else sx_assert(!r.answer.empty() && r.answer == page.substr(0, r.answer.size()), "a beginning of the page");
#else
                    sx_assert(r.answer == page, "the page to ask for a crawl");
#endif
                    sx_reach("page"); }
                else sx_assert((r.answer.find("sent the request") != S::npos) == (post && url), "whether the request was accepted is told");
                if (post && url) { order.push_back(which); sx_reach("accepted"); } else sx_reach("not accepted"); }
        }
        for (int w : order) { sx_assert(!hidden.empty(), "an accepted request is queued"); check(rs[w], hidden.front()); hidden.pop(); }
        sx_assert(hidden.empty() && shared->sharedQueue.empty(), "only complete, accepted requests are queued, once");
        if (order.size() > 1) sx_reach("two");
    }
    sx_assert(processors == 0 && responses == 0 && !locked, "what a request needed is released");
    sx_assert(sx_live_heap() == live, "the memory of a request is released");
    d.stop(); sx_assert(started == 0, "the server is stopped"); d.stop();
}
