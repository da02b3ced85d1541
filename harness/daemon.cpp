// P18: the HTTP callbacks of the daemon, driven by a stand-in for the HTTP library.
#include <sx.h>
#include <map>
#include <string>
#include <vector>
#include <stdexcept>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include "mws/daemon/Daemon.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
#include "mws/types/Query.hpp"
#include "mws/types/CmmlToken.hpp"
#include "mws/xmlparser/readMwsQuery.hpp"
#ifndef CHUNKS
#define CHUNKS 2
#endif
#ifndef NREQ
#define NREQ 1
#endif
namespace common { namespace utils { std::string formattedString(const char* f, ...) { return f; } } }  // only used for log messages
using namespace mws;
typedef std::vector<std::pair<std::string, std::string>> Headers;
struct Request {
    std::string method, url, body;      // what the client sends
    size_t given; bool done, aborted, writeFailed;
    void* ptr;
    int responses, status; std::string answer; Headers headers; bool queueFails;
    // what the code below the callback does
    int read, handle, write; std::string out; bool written; int parsed;
};
static Request* cur;
static long answersAlive, handlersAlive, queriesMade, streams;
static mws::types::Query* curQuery;
static uint32_t wantMax; static int wantNr;
static bool schemaMode;
// -- the stdio calls of the daemon
struct VFile { bool writing; std::string data; size_t pos; char** buf; size_t* size; };
#ifdef LONGBODY
static size_t streamTakes, chunkSize; // at most so much at a time
#endif
static bool console(FILE* f) { return f == nullptr || f == stdout || f == stderr; }
extern "C" {
FILE* vf_open_memstream(char** b, size_t* s) { VFile* f = new VFile(); f->writing = true; f->pos = 0; f->buf = b; f->size = s; streams++; return (FILE*)f; }
FILE* vf_fmemopen(void* p, size_t n, const char* mode) {
    sx_assert(mode[0] == 'r', "the request is opened for reading");
    VFile* f = new VFile(); f->writing = false; f->pos = 0; f->data.assign((const char*)p, n); streams++; return (FILE*)f;
}
static void sync(VFile* f) {
    char* b = (char*)realloc(*f->buf, f->data.size() + 1);
    memcpy(b, f->data.data(), f->data.size()); b[f->data.size()] = 0;
    *f->buf = b; *f->size = f->data.size();
}
int vf_fflush(FILE* p) { VFile* f = (VFile*)p; if (!console(p) && f->writing) sync(f); return 0; }
int vf_fclose(FILE* p) {
    VFile* f = (VFile*)p;
    if (f->writing) sync(f);
    delete f; streams--; return 0;
}
int vf_ferror(FILE* p) { return 0; }
size_t vf_fwrite(const void* p, size_t s, size_t n, FILE* q) {
    VFile* f = (VFile*)q;
    if (console(q)) return n;
    sx_assert(f->writing, "written to a stream open for writing");
    size_t k = s * n;
    if (!cur->written && k) { // request data: the stream may take a part of it, or nothing
#ifdef LONGBODY
        if (k > streamTakes) k = streamTakes;
#else
        k = sx_pick("accepted", s * n + 1);
#endif
        if (!k) cur->writeFailed = true;
    }
    f->data.append((const char*)p, k);
    return k / s;
}
int vf_fputc(int c, FILE* q) { char x = (char)c; return vf_fwrite(&x, 1, 1, q) == 1 ? c : -1; }
int vf_fputs(const char* s, FILE* q) { return vf_fwrite(s, 1, strlen(s), q) == strlen(s) ? 0 : -1; }
}
struct Fmt : types::Query::ResponseFormatter {
    const char* getContentType() const { return "a/b"; }
    int writeData(const GenericAnswer* a, FILE* o) const {
        sx_assert(a != nullptr && answersAlive == 1, "the answer is written while it exists");
        cur->written = true;
        if (vf_fwrite(cur->out.data(), 1, cur->out.size(), o) != cur->out.size()) return -1;
        if (cur->write == 0) return -1;
        return (int)cur->out.size();
    }
} fmt;
// -- the query reader
namespace mws { namespace xmlparser {
types::Query* readMwsQuery(FILE* p, QueryMode mode) {
    VFile* f = (VFile*)p;
    sx_assert(f != nullptr, "the reader gets a stream");
    sx_assert(!f->writing, "the reader gets a stream open for reading");
    sx_assert(cur->parsed++ == 0, "the request is parsed once");
    sx_assert(cur->given == cur->body.size() && f->data.size() == cur->body.size(), "the reader gets the whole body");
    bool eq = true;
    for (size_t i = 0; i < f->data.size() && i < cur->body.size(); i++) eq = eq & (f->data[i] == cur->body[i]);
    sx_assert(eq, "the reader gets exactly the body");
    sx_assert(mode == (schemaMode ? QUERY_SCHEMA : QUERY_MWS), "the reader is told the kind of query");
    if (cur->read == 0) return nullptr;
    types::Query* q = new types::Query();
    queriesMade++;
    curQuery = q;
    q->attrResultMaxSize = wantMax; q->attrResultTotalReqNr = wantNr;
    q->responseFormatter = &fmt;
    if (cur->read == 2) { types::CmmlToken* t = types::CmmlToken::newRoot(); t->setTag("ci"); q->tokens.push_back(t); }
    return q;
}
} }
struct Ans : GenericAnswer { Ans() { answersAlive++; } ~Ans() { answersAlive--; } };
static GenericAnswer* handle(types::Query* q) {
    sx_assert(q == curQuery && q->tokens.size() == 1, "the handler gets the query that was read");
#ifdef APPLY_RESTRICTIONS
    sx_assert(q->attrResultMaxSize <= MAX_QUERY_RESULT_SIZE && q->attrResultTotalReqNr <= MAX_QUERY_RESULT_TOTAL, "restricted");
#else
    sx_assert(q->attrResultMaxSize == wantMax && q->attrResultTotalReqNr == wantNr, "the handler gets the options that were read");
#endif
    return cur->handle ? new Ans() : nullptr;
}
struct Plain : daemon::QueryHandler { Plain() { handlersAlive++; } ~Plain() { handlersAlive--; } GenericAnswer* handleQuery(types::Query* q) { return handle(q); } };
struct Schema : daemon::SchemaQueryHandler { Schema(const index::ExpressionEncoder::Config& c) : daemon::SchemaQueryHandler(c) { handlersAlive++; } ~Schema() { handlersAlive--; } GenericAnswer* handleQuery(types::Query* q) { return handle(q); } };
// -- the HTTP library
struct MHD_Response { char* p; size_t n; bool owned; Headers h; int refs; };
static MHD_AcceptPolicyCallback accept_cb; static void* accept_cls;
static MHD_AccessHandlerCallback access_cb; static void* access_cls;
static MHD_RequestCompletedCallback done_cb; static void* done_cls;
static bool startFails; static int started; static uint16_t gotPort; static unsigned gotFlags;
static long responsesAlive;
extern "C" {
struct MHD_Daemon* MHD_start_daemon(unsigned flags, uint16_t port, MHD_AcceptPolicyCallback apc, void* apc_cls, MHD_AccessHandlerCallback dh, void* dh_cls, ...) {
    gotPort = port; gotFlags = flags; accept_cb = apc; accept_cls = apc_cls; access_cb = dh; access_cls = dh_cls;
    va_list ap; va_start(ap, dh_cls);
    for (;;) {
        int o = va_arg(ap, int);
        if (o == MHD_OPTION_END) break;
        else if (o == MHD_OPTION_NOTIFY_COMPLETED) { done_cb = va_arg(ap, MHD_RequestCompletedCallback); done_cls = va_arg(ap, void*); }
        else if (o == MHD_OPTION_CONNECTION_LIMIT || o == MHD_OPTION_CONNECTION_TIMEOUT || o == MHD_OPTION_THREAD_POOL_SIZE || o == MHD_OPTION_PER_IP_CONNECTION_LIMIT) (void)va_arg(ap, unsigned);
        else if (o == MHD_OPTION_CONNECTION_MEMORY_LIMIT) (void)va_arg(ap, size_t);
        else sx_assert(false, "harness: unknown daemon option");
    }
    va_end(ap);
    if (startFails) return nullptr;
    started++;
    return (struct MHD_Daemon*)malloc(1);
}
void MHD_stop_daemon(struct MHD_Daemon* d) { started--; free(d); }
static struct MHD_Response* response(size_t n, void* p, bool mustFree, bool copy) {
    MHD_Response* r = new MHD_Response();
    r->n = n; r->owned = mustFree || copy; r->refs = 1;
    r->p = (char*)p;
    if (copy) { r->p = (char*)malloc(n + 1); memcpy(r->p, p, n); if (mustFree) free(p); }
    responsesAlive++;
    return r;
}
struct MHD_Response* MHD_create_response_from_buffer(size_t n, void* p, enum MHD_ResponseMemoryMode m) { return response(n, p, m == MHD_RESPMEM_MUST_FREE, m == MHD_RESPMEM_MUST_COPY); }
struct MHD_Response* MHD_create_response_from_data(size_t n, void* p, int mustFree, int copy) { return response(n, p, mustFree, copy); }
enum MHD_Result MHD_add_response_header(struct MHD_Response* r, const char* k, const char* v) { sx_assert(r != nullptr && k && v, "a header of a response"); r->h.push_back(std::make_pair(std::string(k), std::string(v))); return MHD_YES; }
static void drop(MHD_Response* r) { if (--r->refs == 0) { if (r->owned) free(r->p); delete r; responsesAlive--; } }
enum MHD_Result MHD_queue_response(struct MHD_Connection* c, unsigned status, struct MHD_Response* r) {
    sx_assert((Request*)c == cur, "the response goes to the connection of the request");
    if (cur->queueFails) return MHD_NO;
    cur->responses++; cur->status = (int)status; cur->headers = r->h;
    cur->answer.assign(r->p, r->n);
    return MHD_YES;
}
void MHD_destroy_response(struct MHD_Response* r) { drop(r); }
}
static std::string header(const Headers& h, const char* k) { for (auto& x : h) if (x.first == k) return x.second; return ""; }
static bool has(const std::string& s, const char* w) { return s.find(w) != std::string::npos; }
// one call of the library into the daemon; the request goes on until it is answered or closed
static void step(Request& r, size_t chunk) {
    cur = &r;
    bool post = r.method == "POST";
    size_t n = chunk;
    int before = r.responses;
    bool first = r.ptr == nullptr && !r.given && !r.parsed;
    std::string data = r.body.substr(r.given, n);
    char* block = (char*)malloc(n + 1); memcpy(block, data.data(), n);
    size_t left = n;
    r.given += n;
    r.writeFailed = false;
    int ret = access_cb(access_cls, (struct MHD_Connection*)&r, r.url.c_str(), r.method.c_str(), "HTTP/1.1", n ? block : nullptr, &left, &r.ptr);
    free(block);
    sx_assert(left <= n, "no more data is consumed than was given");
    r.given -= left;
    if (ret == MHD_NO) {
        sx_assert(r.writeFailed || r.queueFails, "a request is dropped only when a library call failed");
        r.done = r.aborted = true;
        if (done_cb) done_cb(done_cls, (struct MHD_Connection*)&r, &r.ptr, MHD_REQUEST_TERMINATED_WITH_ERROR);
        return;
    }
    sx_assert(!r.writeFailed, "lost data closes the connection");
    if (r.responses > before) { r.done = true; if (done_cb) done_cb(done_cls, (struct MHD_Connection*)&r, &r.ptr, MHD_REQUEST_TERMINATED_COMPLETED_OK); return; }
    sx_assert(post, "only POST requests wait for data");
    sx_assert(first || n, "a complete request is answered");
}
static void check(Request& r) {
    bool root = r.url == "/";
    if (r.aborted) { sx_assert(r.responses == 0, "no response after the connection failed"); return; }
    sx_assert(r.responses == 1, "exactly one response");
    sx_observe("status", r.status);
    if (r.method == "OPTIONS") {
        sx_assert(r.status == 200 && r.answer.empty(), "OPTIONS: empty answer");
        sx_assert(header(r.headers, "Access-Control-Allow-Methods") == (root ? "GET, POST, OPTIONS" : "POST, OPTIONS"), "OPTIONS: the methods of the path");
        sx_reach("options");
    } else if (r.method == "GET" && root) {
        sx_assert(r.status == 200 && has(r.answer, "Daemon listening"), "GET: the root page"); sx_reach("root");
    } else if (r.method != "POST") {
        sx_assert(r.status == 405 && has(r.answer, "Method not allowed"), "other methods are not allowed");
        sx_assert(header(r.headers, "Allow") == (root ? "GET, POST, OPTIONS" : "POST, OPTIONS"), "405: the methods of the path");
        sx_reach("method");
    } else if (r.read != 2) {
        sx_assert(r.status == 400 && has(r.answer, "Bad query"), "a query that cannot be read is a bad request"); sx_reach("bad query");
    } else if (!r.handle || !r.write) {
        sx_assert(r.status == 500 && has(r.answer, "Server error"), "a failing handler is a server error"); sx_reach(r.handle ? "write failed" : "handler failed");
    } else {
        sx_assert(r.status == 200, "a query is answered");
        bool eq = r.answer.size() == r.out.size();
        for (size_t i = 0; i < r.answer.size() && i < r.out.size(); i++) eq = eq & (r.answer[i] == r.out[i]);
        sx_assert(eq, "the answer is exactly what the formatter wrote");
        sx_assert(header(r.headers, "Content-Type") == "a/b", "the content type of the format");
        sx_reach("answered"); if (r.body.empty()) sx_reach("empty body");
    }
}
static std::string bytes(const char* nm, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s.push_back((char)sx_u8(nm)); return s; }
static void make(Request& r) {
    static const char* M[] = {"POST", "GET", "OPTIONS", "PUT", "HEAD", "get", "POSTS", ""};
    r.ptr = nullptr; r.given = 0; r.done = r.aborted = r.writeFailed = r.written = false; r.responses = r.status = r.parsed = 0;
    r.read = r.handle = r.write = 0;
#ifdef LONGBODY
    static const size_t LS[] = {255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 32769, 65536, 65537}, TAKES[] = {1000000, 4096, 1000}, CH[] = {1000000, 1448, 32768};
    r.method = "POST"; r.url = "/"; r.queueFails = false; r.read = 2; r.handle = r.write = 1;
    size_t n = LS[sx_pick("length", sizeof LS / sizeof *LS)], m = sx_pick("shortanswer", 2) ? 10 : n; streamTakes = TAKES[sx_pick("takes", 3)]; chunkSize = CH[sx_pick("chunks", 3)];
    for (size_t i = 0; i < n; i++) r.body += (char)(i / 251 + i);
    r.body[n - 1] = (char)sx_u8("last"); r.body[n / 2] = (char)sx_u8("middle"); r.out = r.body.substr(0, m);
#elif NREQ > 1
    r.method = M[sx_pick("method", 2)]; r.url = "/"; r.queueFails = false;
    if (r.method == "POST") { r.body = bytes("body", sx_pick("length", 3)); r.read = sx_pick("read", 2) * 2; r.handle = r.write = 1; r.out = bytes("out", 1); }
#else
    r.method = M[sx_pick("method", 8)];
    r.url = "/" + bytes("url", sx_pick("path", 2));
    for (size_t i = 0; i < r.url.size(); i++) sx_assume(r.url[i] != 0);
    r.queueFails = sx_pick("queuefails", 2);
    if (r.method == "POST") {
        r.body = bytes("body", sx_pick("length", 4));
        r.read = sx_pick("read", 3);
        if (r.read == 2) r.handle = sx_pick("handle", 2);
        if (r.handle) { r.write = sx_pick("write", 2); r.out = bytes("out", sx_pick("outlength", 3)); }
    }
#endif
}
#ifdef LONGBODY
#define LONGB 1
#else
#define LONGB 0
#endif
extern "C" void sx_main(void) {
    index::ExpressionEncoder::Config ec;
    schemaMode = sx_pick("schema", 2);
    daemon::QueryHandler* qh = schemaMode ? (daemon::QueryHandler*)new Schema(ec) : new Plain();
    daemon::Daemon::Config cfg;
    cfg.port = (uint16_t)sx_u32("port");
    cfg.enableIpv6 = sx_pick("ipv6", 2);
    wantMax = sx_u32("max"); wantNr = (int)sx_u32("total");
    startFails = !LONGB && NREQ == 1 && sx_pick("startfails", 2);
    daemon::Daemon* d = nullptr;
    bool threw = false;
    try { d = new daemon::Daemon(qh, cfg); } catch (std::runtime_error& e) { threw = true; }
    sx_assert(threw == startFails, "a server that cannot start is reported");
    if (threw) { sx_assert(handlersAlive == 0, "the handler is released"); sx_reach("start failed"); return; }
    sx_assert(gotPort == cfg.port, "the port of the configuration");
    sx_assert(!(gotFlags & MHD_USE_IPv6) == !cfg.enableIpv6, "IPv6 as configured");
    sx_assert(!accept_cb || accept_cb(accept_cls, nullptr, 0) == MHD_YES, "connections are accepted");
    SX_SHARE(1);
    Request* rs[NREQ];
    for (int i = 0; i < NREQ; i++) { rs[i] = new Request(); make(*rs[i]); }
    uint64_t live = sx_live_heap();
    bool fed[NREQ] = {};
    int calls[NREQ] = {};
    for (;;) {
        int open[NREQ], n = 0;
        for (int i = 0; i < NREQ; i++) if (!rs[i]->done) open[n++] = i;
        if (!n) break;
        int i = open[n > 1 ? sx_pick("next", n) : 0];
        Request& r = *rs[i];
        size_t rest = r.body.size() - r.given;
        if (fed[i] && !LONGB && NREQ == 1 && sx_pick("abort", 2)) {
            cur = &r; r.done = r.aborted = true; sx_reach("aborted");
            if (done_cb) done_cb(done_cls, (struct MHD_Connection*)&r, &r.ptr, MHD_REQUEST_TERMINATED_CLIENT_ABORT);
            continue;
        }
#ifdef LONGBODY
        size_t chunk = !fed[i] ? 0 : rest > chunkSize ? chunkSize : rest;
#else
        size_t chunk = !fed[i] || !rest ? 0 : ++calls[i] >= CHUNKS ? rest : 1 + sx_pick("chunk", rest);
#endif
        fed[i] = true;
        step(r, chunk);
    }
    SX_SHARE(0);
    for (int i = 0; i < NREQ; i++) check(*rs[i]);
    for (int i = 0; i < NREQ; i++) { Headers().swap(rs[i]->headers); std::string().swap(rs[i]->answer); }
    sx_assert(streams == 0, "every stream is closed");
    sx_assert(answersAlive == 0, "every answer is released");
    sx_assert(responsesAlive == 0, "every response is released");
    sx_assert(sx_live_heap() == live, "all memory of the request is released");
    delete d;
    sx_assert(handlersAlive == 0 && started == 0, "the server is stopped and its handler released");
}
