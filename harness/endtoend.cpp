// P27: harvests in, answers out: the in-memory server, the stored index and its memory-mapped engine give the same, right answers.
#include "memfs.hpp"
#include "fakelevel.hpp"
#include "cmml.hpp"
#include <map>
#include <set>
#include <unistd.h>
#include "common/utils/util.hpp"
#include "mws/daemon/HarvestQueryHandler.hpp"
#include "mws/daemon/IndexQueryHandler.hpp"
#include "mws/index/IndexWriter.hpp"
#include "mws/index/IndexBuilder.hpp"
#include "mws/types/MwsAnswset.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"
#ifndef NT1
#define NT1 3
#endif
#ifndef NT2
#define NT2 2
#endif
#ifndef NQ
#define NQ 2
#endif
using namespace mws; using namespace mws::index; using namespace mws::daemon; using mws::types::Query;
struct F { std::vector<Model*> ns; Model* root; std::string uri, data; bool hasData; };
static std::vector<F> formulas; static std::vector<F>* current = &formulas;
static std::string dir = "idx";
static uint8_t plain(const char* n) { uint8_t c = sx_u8(n); sx_assume((c >= 'a') & (c <= 'z')); return c; }
static F formula(int n, char id) {
    auto all = shapes(n, 2); F f;
    f.root = model_of(all[sx_pick("shape", all.size())], f.ns);
    for (auto m : f.ns) { m->tag = "c"; m->text = std::string(1, (char)plain("symbol")); }
    f.uri = std::string("doc#") + id; f.hasData = false; f.data = "";
    return f;
}
// ---- the harvest directory
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
namespace common { namespace utils {
int foreachEntryInDirectory(const std::string& path, const FileCallback& fileCallback, const DirectoryCallback&) {
    sx_assert(path == "harvests", "the given directory is read");
    MFile* f = mfs_make("harvests/a.harvest"); (void)f;
    return fileCallback("harvests/a.harvest", "");
}
bool hasSuffix(const std::string& s, const std::string& x) { return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
void create_directory(const std::string& p, bool) { sx_assert(p == dir, "the given directory"); }
std::string humanReadableByteCount(uint64_t, bool) { return ""; }
std::string formattedString(const char* f, ...) { return f; }
} }
namespace mws { namespace parser {
HarvestResult processHarvestFromFd(int, HarvestProcessor* p, bool readData) {
    HarvestResult r; r.status = 0; r.numExpressions = 0;
    for (auto& f : *current) {
        dbc::CrawlId c = dbc::CRAWLID_NULL;
        if (f.hasData && readData) c = p->processData(f.data);
        CmmlToken* t = build(f.root); int n = p->processExpression(t, f.uri, c); if (n > 0) r.numExpressions += n; delete t;
    }
    return r;
}
} }
static bool same(Model* a, Model* b) {
    if (a->kids.size() != b->kids.size()) return false;
    bool eq = same_bytes(a->text, b->text);
    for (size_t i = 0; i < a->kids.size(); i++) eq = eq & same(a->kids[i], b->kids[i]);
    return eq;
}
// an instance of the query?
static bool instance(Model* q, Model* t, std::map<std::string, Model*>& bind) {
    if (q->hasName) { auto i = bind.find(q->name); if (i == bind.end()) { bind[q->name] = t; return true; } return same(i->second, t); }
    if (q->kids.size() != t->kids.size()) return false;
    bool ok = same_bytes(q->text, t->text);
    for (size_t i = 0; i < q->kids.size(); i++) ok = ok & instance(q->kids[i], t->kids[i], bind);
    return ok;
}
static const std::string PATH(Model* m, CmmlToken* t) { return m->tok->getXpath(); }
static MwsAnswset* ask(QueryHandler* h, Model* q, bool hits, unsigned min, unsigned max, int total) {
    Query query; query.tokens.push_back(build(q)); query.options.includeHits = hits; query.options.includeMwsIds = true;
    query.attrResultLimitMin = min; query.attrResultMaxSize = max; query.attrResultTotalReqNr = total;
    SX_SHARE(1); MwsAnswset* r = static_cast<MwsAnswset*>(h->handleQuery(&query)); SX_SHARE(0); return r;
}
static void equal(MwsAnswset* a, MwsAnswset* b, bool ids) {
    sx_assert(a && b && a->total == b->total, "the same total");
    sx_assert(a->answers.size() == b->answers.size(), "the same number of answers");
    for (size_t i = 0; i < a->answers.size(); i++) {
        sx_assert(a->answers[i]->uri == b->answers[i]->uri && a->answers[i]->xpath == b->answers[i]->xpath, "the same answers in the same order");
        sx_assert(same_bytes(a->answers[i]->data, b->answers[i]->data), "with the same document");
    }
    sx_assert(a->ids.size() == b->ids.size() && (!ids || a->ids == b->ids), "the same ids"); // ids differ between the indexes of one process
    sx_assert(a->qvarNames == b->qvarNames && a->qvarXpaths == b->qvarXpaths, "the same query variables");
}
static int write(std::vector<F>* fs, bool del) {
    current = fs; IndexConfiguration c; c.harvester.paths.push_back("harvests"); c.dataPath = dir; c.deleteOldData = del;
    int r = createCompressedIndex(c);
    sx_assert(fl_open == 0 && fl_iters == 0 && mfs_open == 0, "everything is closed after writing");
    return r;
}
#ifdef MANY
static Model* kid(F& f, Model* p, const std::string& t) { Model* m = new_model(p); m->tag = "c"; m->text = t; f.ns.push_back(m); if (!p) f.root = m; return m; }
static F manyformula(int k, char sym) {
    F f; f.uri = "doc" + std::to_string(k / 4) + "#" + std::to_string(k); f.hasData = k % 3 == 0; f.data = f.hasData ? "data" + std::to_string(k) + std::string(k == 6 ? 5000 : 0, 'd') : "";
    Model* r = kid(f, nullptr, "f" + std::to_string(k % 6));
    if (k == 5) for (int i = 0; i < 30; i++) r = kid(f, r, "d");
    if (k == 10) for (int i = 0; i < 40; i++) kid(f, r, "w" + std::to_string(i % 20));
    kid(f, r, k == 3 ? std::string(1, sym) : std::string(1, (char)('a' + k % 7)));
    kid(f, r, "7"); Model* g = kid(f, r, "g"); kid(f, g, std::string(1, (char)('a' + k % 3))); kid(f, kid(f, g, "h"), "7");
    return f;
}
static void qkid(Model* p, const char* t) { Model* m = new_model(p); if (*t == '?') { m->tag = "mws:qvar"; m->hasName = true; m->name = t + 1; } else { m->tag = "c"; m->text = t; } }
#endif
extern "C" void sx_main(void) {
    if (sx_native()) { char t[] = "/tmp/vfe2eXXXXXX"; dir = mkdtemp(t); }
#ifdef MANY
    uint8_t sym = sx_u8("symbol"); sx_assume((sym >= 'a') & (sym <= 'i'));
    for (int k = 0; k < 24; k++) formulas.push_back(manyformula(k, (char)sym));
    Model* q = new_model(nullptr); q->tag = "c";
    switch (sx_pick("query", 6)) {
    case 0: q->text = "7"; break;
    case 1: q->text = "g"; qkid(q, "?x"); qkid(q, "?y"); break;
    case 2: q->text = "f3"; qkid(q, "?x"); qkid(q, "?y"); qkid(q, "?z"); break;
    case 3: q->text = "g"; qkid(q, "b"); qkid(q, "?y"); break;
    case 4: q->text = "f4"; for (int i = 0; i < 43; i++) { char b[4] = {'?', 'v', (char)('0' + i % 30), 0}; if (i >= 20 && i < 40) b[2] = (char)('0' + i - 20); qkid(q, b); } break;
    case 5: q->tag = "mws:qvar"; q->hasName = true; q->name = "x"; break;
    }
    std::vector<F> old; unsigned history = 0; bool hits = sx_pick("hits", 2) == 0; unsigned min = 0, max = 1000; int total = 1000;
    switch (hits ? sx_pick("window", 5) : 0) { case 1: min = 1; max = 1; break; case 2: total = 20; break; case 3: min = 10; max = 9; break; case 4: min = 15; max = 100; total = 30; break; }
#else
    formulas.push_back(formula(NT1, 'a')); if (NT2) formulas.push_back(formula(NT2, 'b'));
    if (NT2 || sx_pick("record", 2)) { formulas[0].hasData = true; formulas[0].data = std::string("d") + (char)plain("data"); }
    // the query
    std::vector<Model*> qn; auto all = shapes(NQ, 2); Model* q = model_of(all[sx_pick("qshape", all.size())], qn);
    for (auto m : qn) {
        unsigned k = m->kids.empty() ? sx_pick("qkind", 3) : 0;
        if (k) { m->tag = "mws:qvar"; m->hasName = true; m->name = k == 1 ? "x" : "y"; } else { m->tag = "c"; m->text = std::string(1, (char)plain("qsymbol")); }
    }
    std::vector<F> old; Model* om = new_model(nullptr); om->tag = "c"; om->text = "z"; F of; of.ns.push_back(om); of.root = om; of.uri = "old"; of.hasData = true; of.data = "olddata"; old.push_back(of);
    unsigned history = sx_pick("history", HIST);
    bool hits = sx_pick("hits", 2) == 0; unsigned min = 0, max = 50; int total = 50;
    switch (hits ? sx_pick("window", 3) : 0) { case 1: min = 1; max = 1; break; case 2: total = 1; break; }
#endif
    // writing, possibly over an older index
    if (history) sx_assert(write(&old, false) == EXIT_SUCCESS, "the older index is written");
    int rc = write(&formulas, history != 2);
    if (history == 2) { sx_assert(rc != EXIT_SUCCESS, "an older index is not overwritten unasked"); sx_reach("refused"); current = &old; } else sx_assert(rc == EXIT_SUCCESS, "the index is written");
    std::vector<F>& fs = *current;
    HarvesterConfiguration hc; hc.paths.push_back("harvests");
    HarvestQueryHandler mem(hc);
    IndexQueryHandler disk(dir);
    IndexQueryHandler::Config ec; ec.useExperimentalQueryEngine = true; IndexQueryHandler engine(dir, ec);
    std::unique_ptr<MwsAnswset> a(ask(&mem, q, hits, min, max, total)), b(ask(&disk, q, hits, min, max, total)), c(ask(&engine, q, hits, min, max, total));
    equal(a.get(), b.get(), false); equal(b.get(), c.get(), true);
    // what is right: every formula with an instance among its subterms, once for each different instance
    uint64_t want = 0; std::vector<std::pair<size_t, Model*>> found; unsigned different = 0;
    for (size_t k = 0; k < fs.size(); k++) for (size_t i = 0; i < fs[k].ns.size(); i++) {
        Model* m = fs[k].ns[i]; std::map<std::string, Model*> bind;
        if (!instance(q, m, bind)) continue;
        bool first = true, firstAtAll = true;
        for (size_t l = 0; l <= k; l++) for (size_t j = 0; j < (l == k ? i : fs[l].ns.size()); j++) if (same(fs[l].ns[j], m)) { firstAtAll = false; if (l == k) first = false; }
        if (first) { want++; found.push_back(std::make_pair(k, m)); }
        if (firstAtAll) different++;
    }
    if (!hits) want = different;
    sx_assert((uint64_t)a->total == (want < (uint64_t)total ? want : (uint64_t)total), "the number of hits");
    if (hits && min == 0 && max >= 50 && total >= 50) {
        sx_assert(a->answers.size() == want, "every hit is answered");
        std::vector<bool> used(found.size());
        std::vector<CmmlToken*> built; for (auto& f : fs) built.push_back(build(f.root));
        for (auto x : a->answers) {
            bool ok = false;
            for (size_t i = 0; i < found.size() && !ok; i++) if (!used[i]) {
                F& f = fs[found[i].first];
                if (x->uri != f.uri) continue;
                bool at = false; for (auto m : f.ns) if (m->tok->getXpath() == x->xpath) at = at | same(m, found[i].second);
                if (!at) continue;
                sx_assert(same_bytes(x->data, f.hasData ? f.data : std::string()), "with its own document");
                used[i] = true; ok = true;
            }
            sx_assert(ok, "each answer is one of the formulas that contain an instance");
        }
        for (auto t : built) delete t;
        sx_assert(a->ids.size() == different, "the ids of the different instances");
    }
    size_t lim = hits ? (a->total > (int)min ? a->total - min : 0) : 0; if (lim > max) lim = max;
    sx_assert(a->answers.size() == lim, "the window that was asked for");
    sx_reach(want == 0 ? "nothing" : want == 1 ? "one hit" : "several hits");
    if (history == 1) sx_reach("older index replaced");
    if (sx_native()) { unlink((dir + "/" + MEANING_DICTIONARY_FILE).c_str()); rmdir(dir.c_str()); }
}
