// P26: the main programs: configuration from the command line, failing starts, stopping on signals.
#include <sx.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdexcept>
#include <string.h>
#include <string>
#include <vector>
#include "mws/daemon/Daemon.hpp"
#include "mws/daemon/microhttpd_linux.h"
#include "mws/daemon/HarvestQueryHandler.hpp"
#include "mws/daemon/IndexQueryHandler.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
#include "mws/index/IndexWriter.hpp"
#include "common/utils/FlagParser.hpp"
#include "build-gen/config.h"
enum { MWSD = 1, SCHEMAD, MWSINDEX };
#ifndef PROG
#define PROG MWSD
#endif
namespace common { namespace utils { std::string formattedString(const char* f, ...) { return f; } } }
using namespace mws;
extern "C" int vf_main(int argc, char* argv[]);
// what the command line asks for
struct Want { std::vector<std::string> I; std::string D, e, l, i, s, o; bool x, r, c, n, f, six, d, hasp, portOk; int port; } W;
static bool loadFails[2], buildFails, harvestFails, startFails, logFails, dupFails, daemonFails, pidFails;
static int loads, builds, harvests, started, stopped, alive, inited, pidSaved, daemonized, redirected;
static int indexResult;
// -- signals
static struct sigaction act[65]; static bool have[65]; static bool blocked[65], pending[65];
static int sigToSend; static bool starting; static bool sent, handled, fatal;
static void deliver(int s) { handled = true; act[s].sa_handler(s); }
static void point() { // a moment at which a signal may arrive
    if (sent || !sigToSend || !have[sigToSend] || (fatal && starting)) return;
    if (!sx_pick("signalnow", 2)) return;
    sent = true;
    if (blocked[sigToSend]) pending[sigToSend] = true; else deliver(sigToSend);
}
extern "C" {
int vf_sigaction(int s, const struct sigaction* n, struct sigaction* o) {
    if (o) *o = act[s];
    if (n) { act[s] = *n; have[s] = n->sa_handler != SIG_DFL; }
    return 0;
}
int vf_sigemptyset(sigset_t* s) { memset(s, 0, sizeof *s); return 0; }
int vf_sigaddset(sigset_t* s, int k) { ((unsigned char*)s)[k / 8] |= 1 << (k % 8); return 0; }
int vf_sigprocmask(int how, const sigset_t* n, sigset_t* o) {
    point();
    if (o) { memset(o, 0, sizeof *o); for (int k = 1; k < 65; k++) if (blocked[k]) vf_sigaddset(o, k); }
    if (n) for (int k = 1; k < 65; k++) {
        bool b = (((const unsigned char*)n)[k / 8] >> (k % 8)) & 1;
        if (how == SIG_BLOCK) blocked[k] |= b; else if (how == SIG_UNBLOCK) blocked[k] &= !b; else blocked[k] = b;
    }
    for (int k = 1; k < 65; k++) if (pending[k] && !blocked[k]) { pending[k] = false; deliver(k); }
    point();
    return 0;
}
int vf_sigsuspend(const sigset_t* m) {
    point(); // still with the old mask
    if (!sigToSend) { sx_reach("running"); sx_stop(); }
    sx_assert(!sent || pending[sigToSend], "a stop signal that has arrived is not forgotten");
    sx_assert(!((((const unsigned char*)m)[sigToSend / 8] >> (sigToSend % 8)) & 1), "the signals can arrive while waiting");
    sx_assert(started == 1 && stopped == 0, "serving while waiting for a signal");
    sent = true; pending[sigToSend] = false;
    deliver(sigToSend);
    errno = EINTR; return -1;
}
int vf_raise(int s) {
    sx_assert(fatal && s == sigToSend, "a crash is passed on");
    sx_assert(!have[s], "a crash is not handled again");
    sx_assert(started == stopped, "the server is stopped after a crash");
    sx_reach("crash"); sx_stop();
}
// -- other system calls
FILE* vf_freopen(const char* p, const char* m, FILE* f) { sx_assert(p == W.l && !strcmp(m, "w") && f == stdout, "output goes to the log file"); redirected++; if (logFails) { errno = EACCES; return nullptr; } return f; }
int vf_dup2(int a, int b) { sx_assert(a == 1 && b == 2, "error output goes to the log file"); redirected++; if (dupFails) { errno = EBADF; return -1; } return b; }
int vf_daemon(int, int noclose) { sx_assert(W.d && !started && !noclose == W.l.empty() && !pidSaved, "a daemon keeps its log file and gets its pid file last"); daemonized++; if (daemonFails) { errno = EAGAIN; return -1; } return 0; }
int save_pid_file(const char* p) { sx_assert(p == W.i, "the pid file that was given"); pidSaved++; return pidFails ? -1 : 0; }
void vf_exit(int c) { sx_fail("no exit without help or version"); }
struct MHD_Daemon* MHD_start_daemon(unsigned flags, uint16_t port, MHD_AcceptPolicyCallback, void*, MHD_AccessHandlerCallback, void*, ...) {
    starting = true; point();
    sx_assert(!(flags & MHD_USE_IPv6) == !W.six, "IPv6 as asked for");
    sx_assert(port == (W.hasp ? W.port : PROG == MWSD ? DEFAULT_MWS_PORT : DEFAULT_SCHEMA_PORT), "the port that was asked for");
    sx_assert(inited == 1, "the XML parser is initialised before queries can arrive");
    if (startFails) { errno = EADDRINUSE; return nullptr; }
    started++;
    point(); starting = false;
    return (struct MHD_Daemon*)malloc(1);
}
void MHD_stop_daemon(struct MHD_Daemon* d) { sx_assert(alive == 1, "the handler outlives the server"); stopped++; free(d); }
struct MHD_Response* MHD_create_response_from_buffer(size_t, void*, enum MHD_ResponseMemoryMode) { return nullptr; }
struct MHD_Response* MHD_create_response_from_data(size_t, void*, int, int) { return nullptr; }
enum MHD_Result MHD_add_response_header(struct MHD_Response*, const char*, const char*) { return MHD_NO; }
enum MHD_Result MHD_queue_response(struct MHD_Connection*, unsigned, struct MHD_Response*) { return MHD_NO; }
void MHD_destroy_response(struct MHD_Response*) {}
}
namespace mws { namespace parser { int initxmlparser() { inited++; return 0; } } }
static void checkHarvester(const index::HarvesterConfiguration& h) {
    sx_assert(h.paths == W.I, "the harvest paths that were given, in order");
    sx_assert(h.recursive == W.r && h.shouldIgnoreData == W.n && h.encoding.renameCi == W.c, "harvest options as asked for");
    sx_assert(h.fileExtension == (W.e.empty() ? std::string("harvest") : W.e), "the extension that was given");
    sx_assert(h.statisticsLogFile == W.s, "the statistics file that was given");
}
namespace mws { namespace index {
IndexLoader::IndexLoader(const std::string& p, const LoadingOptions&) {
    sx_assert(p == W.D, "the data path that was given");
    if (loadFails[loads++ ? 1 : 0]) throw std::runtime_error("load");
    alive++;
}
IndexLoader::~IndexLoader() { alive--; }
int createCompressedIndex(const IndexConfiguration& c) {
    builds++;
    checkHarvester(c.harvester);
    sx_assert(c.deleteOldData == W.f, "old data is deleted exactly if asked for");
    sx_assert(c.dataPath == (PROG == MWSINDEX ? W.o : W.D), "the index goes where it was asked for");
    return indexResult;
}
} namespace daemon {
IndexQueryHandler::IndexQueryHandler(const std::string& p, const Config& c) : _index(p), _config(c) {
    sx_assert(c.encoding.renameCi == W.c && c.useExperimentalQueryEngine == W.x, "the handler is configured as asked for");
}
IndexQueryHandler::~IndexQueryHandler() {}
GenericAnswer* IndexQueryHandler::handleQuery(types::Query*) { return nullptr; }
HarvestQueryHandler::HarvestQueryHandler(const index::HarvesterConfiguration& h) : _encodingConfig(h.encoding) {
    harvests++;
    checkHarvester(h);
    if (harvestFails) throw std::runtime_error("harvest");
    alive++;
}
HarvestQueryHandler::~HarvestQueryHandler() { alive--; }
GenericAnswer* HarvestQueryHandler::handleQuery(types::Query*) { return nullptr; }
SchemaQueryHandler::SchemaQueryHandler(const ExpressionEncoder::Config& c) : _encodingConfig(c) { alive++; sx_assert(c.renameCi == W.c, "the handler is configured as asked for"); }
SchemaQueryHandler::~SchemaQueryHandler() { alive--; }
GenericAnswer* SchemaQueryHandler::handleQuery(types::Query*) { return nullptr; }
} }
static std::vector<std::string> args;
static void opt(const char* s, const char* l, const char* v) {
    bool lng = false;
#ifdef LONGOPTS
    lng = sx_pick("long", 2);
#endif
    args.push_back(lng ? std::string("--") + l : std::string("-") + s);
    if (v) { if (lng && false) args.back() += std::string("=") + v; else args.push_back(v); }
}
static bool alone;
static void option(int k) {
    switch (k) {
    case 0: break;
    case 1: W.c = true; opt("c", "enable-ci-renaming", nullptr); break;
    case 2: {
        if (!alone) { W.hasp = W.portOk = true; W.port = 8080; opt("p", PROG == MWSD ? "mws-port" : "schema-port", "8080"); break; }
        static char buf[8]; unsigned n = 1 + sx_pick("digits", 5); long v = 0; bool bad = sx_pick("negative", 2); unsigned k0 = 0;
        if (bad) buf[k0++] = '-';
        for (unsigned i = 0; i < n; i++) { unsigned char d = sx_u8("digit"); sx_assume(d <= 9); buf[k0++] = '0' + d; v = v * 10 + d; }
        buf[k0] = 0;
        W.hasp = true; W.portOk = !bad && v > 0 && v < 65536; W.port = (int)v;
        opt("p", PROG == MWSD ? "mws-port" : "schema-port", buf); break;
    }
    case 3: W.six = true; opt("6", "enable-ipv6", nullptr); break;
    case 4: W.d = true; opt("d", "daemonize", nullptr); break;
    case 5: W.l = "log"; opt("l", "log-file", "log"); break;
    case 6: W.i = "pid"; opt("i", "pid-file", "pid"); break;
    case 7: W.r = true; opt("r", "recursive", nullptr); break;
    case 8: W.e = "ext"; opt("e", "harvest-file-extension", "ext"); break;
    case 9: W.x = true; opt("x", "experimental-query-engine", nullptr); break;
    case 10: W.n = true; opt("n", "ignore-harvest-data", nullptr); break;
    case 11: W.f = true; opt("f", "delete-old-data", nullptr); break;
    case 12: W.s = "st"; opt("s", "log-index-stats", "st"); break;
    }
}
extern "C" void sx_main(void) {
    args.push_back("prog");
    static const int SCH[] = {0, 1, 2, 3, 4, 5, 6}, IDX[] = {0, 1, 7, 8};
    bool valid = true;
    int nopt = PROG == MWSD ? 13 : PROG == SCHEMAD ? 7 : 4;
    int a = (int)sx_pick("option", nopt), b = (int)sx_pick("option", nopt);
    if (PROG == SCHEMAD) { a = SCH[a]; b = SCH[b]; }
    if (PROG == MWSINDEX) { a = IDX[a]; b = IDX[b]; }
    sx_assume(a <= b && (a != b || !a));
    alone = a == 0 || b == 0;
    option(a);
    if (PROG != SCHEMAD) {
        int ni = (int)sx_pick("harvests", 3);
        for (int i = 0; i < ni; i++) { const char* p = i ? "h2" : "h1"; W.I.push_back(p); opt("I", "include-harvest-path", p); }
        if (sx_pick("data", 2)) { if (PROG == MWSD) { W.D = "data"; opt("D", "data-path", "data"); } else { W.o = "data"; opt("o", "output-directory", "data"); } }
    }
    option(b);
    std::vector<char*> argv;
    for (auto& s : args) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); argv.push_back(p); }
    argv.push_back(nullptr);
    if (PROG == MWSINDEX) {
        indexResult = (int)sx_pick("result", 2);
        int r = vf_main((int)args.size(), argv.data());
        if (W.I.empty() || W.o.empty()) { sx_assert(r != 0 && !builds, "mandatory options are required"); sx_reach("refused"); }
        else { sx_assert(builds == 1 && r == indexResult, "the result of indexing is reported"); sx_reach("indexed"); }
        return;
    }
    static const int SIG[] = {0, SIGINT, SIGTERM, SIGSEGV, SIGABRT};
    sigToSend = SIG[sx_pick("signal", 5)]; fatal = sigToSend == SIGSEGV || sigToSend == SIGABRT;
    // at most one thing fails
    int bad = (int)sx_pick("failure", 8);
    if (bad == 1) startFails = true;
    if (bad == 2) harvestFails = true;
    if (bad == 3) logFails = true;
    if (bad == 4) dupFails = true;
    if (bad == 5) daemonFails = true;
    if (bad == 6) pidFails = true;
    if (bad == 7) indexResult = 1;
    if (PROG == MWSD && !W.D.empty()) { loadFails[0] = sx_pick("load", 2); loadFails[1] = indexResult || sx_pick("reload", 2); }
    bool ok = !(W.hasp && !W.portOk) && !(!W.l.empty() && (logFails || dupFails)) && !(W.d && daemonFails) && !(!W.i.empty() && pidFails);
    bool early = ok; // gets as far as the index
    if (PROG == MWSD) {
        if (W.D.empty() && W.I.empty()) ok = false;
        if (!W.D.empty() && loadFails[0] && (W.I.empty() || loadFails[1])) ok = false;
        if (W.D.empty() && harvestFails) ok = false;
    }
    bool handler = ok;
    if (startFails) ok = false;
    sx_assume(!fatal || ok);
    int r = vf_main((int)args.size(), argv.data());
    sx_assert((r == 0) == ok, "success is reported exactly if the server ran");
    if (ok) {
        sx_assert(sigToSend != 0 && !fatal && handled, "the server runs until a signal");
        sx_assert(started == 1 && stopped == 1, "the server is stopped");
        sx_assert(daemonized == W.d && pidSaved == !W.i.empty() && redirected == (W.l.empty() ? 0 : 2), "log, pid file and background as asked for");
        if (PROG == MWSD) {
            sx_assert(harvests == (W.D.empty() ? 1 : 0), "harvests are indexed in memory exactly without a data path");
            sx_assert(builds == (!W.D.empty() && loadFails[0]), "a stored index is rebuilt exactly if it cannot be loaded");
            sx_reach(builds ? "rebuilt" : harvests ? "harvested" : "loaded");
        }
        sx_reach("stopped");
    } else {
        sx_assert(started == 0, "nothing is served after a failure");
        sx_assert(handler || early || (!loads && !builds && !harvests), "nothing is indexed after an early failure");
        sx_reach("failed");
    }
    sx_assert(alive == 0, "the handler is released");
}
