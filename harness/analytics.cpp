// P34: the analytics job hands over every expression of an index exactly once, with the number of its formulas.
#include "memfs.hpp"
#include "fakelevel.hpp"
#include "cmml.hpp"
#include <set>
#include <stdarg.h>
#include <unistd.h>
#include "common/utils/util.hpp"
#include "mws/analytics/analytics.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "build-gen/config.h"
#include "mws/index/IndexWriter.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"
#ifndef NT1
#define NT1 3
#endif
#ifndef NT2
#define NT2 0
#endif
typedef std::string S;
using namespace mws; using namespace mws::index; using namespace mws::analytics;
extern "C" int vf_main(int, char**);
struct F { std::vector<Model*> ns; Model* root; };
static std::vector<F> fs; static S dir = "idx"; static bool optC;
static F formula(int n) {
    auto all = shapes(n, 2); F f;
    f.root = model_of(all[sx_pick("shape", all.size())], f.ns);
    for (auto m : f.ns) {
        int kind = 0;
#ifdef VARS
        if (m->kids.empty()) kind = sx_pick("leaf", 4); // symbol, identifier, variable, variable without name
#endif
        uint8_t c = sx_u8("symbol"); sx_assume((c > ' ') & (c != 127));
        m->tag = kind == 0 ? (m->kids.empty() ? "c" : "r") : kind == 1 ? "ci" : "mws:qvar";
        if (kind == 1) { sx_assume((c != 'p') & (c != 'P')); } // never renamed
        if (kind == 2) { m->hasName = true; m->name = S(1, (char)c); } else if (kind != 3) m->text = S(1, (char)c);
    }
    return f;
}
#ifdef MANY
static Model* kid(F& f, Model* p, const S& t) { Model* m = new_model(p); m->tag = "r"; m->text = t; f.ns.push_back(m); if (!p) f.root = m; return m; }
static Model* leaf(F& f, Model* p, const S& t) { Model* m = kid(f, p, t); m->tag = "c"; return m; }
static F manyformula(int k) {
    F f; Model* r = kid(f, nullptr, "f" + std::to_string(k % 6));
    if (k == 8) for (int i = 0; i < 30; i++) r = kid(f, r, "d");
    if (k == 16) for (int i = 0; i < 40; i++) leaf(f, r, "w" + std::to_string(i % 20));
    if (k == 3) { uint8_t c = sx_u8("symbol"); sx_assume((c >= 'a') & (c <= 'i')); leaf(f, r, S(1, (char)c)); } else leaf(f, r, k == 5 ? S(300, 'l') : S(1, (char)('a' + k % 7)));
    leaf(f, r, "7"); Model* g = kid(f, r, "g"); leaf(f, g, S(1, (char)('a' + k % 3))); leaf(f, kid(f, g, "h"), "7");
    return f;
}
#endif
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
namespace common { namespace utils {
int foreachEntryInDirectory(const S&, const FileCallback& file, const DirectoryCallback&) { mfs_make("h0/a.harvest"); return file("h0/a.harvest", ""); }
bool hasSuffix(const S& s, const S& x) { return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
void create_directory(const S&, bool) {}
S humanReadableByteCount(uint64_t, bool) { return ""; }
S formattedString(const char* f, ...) { return f; }
S escapeJsonString(const S& s) { return s; }
} }
namespace mws { namespace parser {
HarvestResult processHarvestFromFd(int, HarvestProcessor* p, bool) {
    HarvestResult r; r.status = 0; r.numExpressions = 0;
    for (auto& f : fs) { CmmlToken* t = build(f.root); int n = p->processExpression(t, "u", dbc::CRAWLID_NULL); if (n > 0) r.numExpressions += n; delete t; }
    return r;
}
} }
// ---- oracle: a subexpression as it is indexed
struct Sym { int kind; S text; int number; size_t arity; bool leaf; }; // kind 0: symbol, 1: renamed identifier, 2: variable, 3: variable without name
static void flat(Model* m, std::vector<Model*>& out) { out.push_back(m); if (m->tag != "mws:qvar") for (auto k : m->kids) flat(k, out); }
static std::vector<Sym> syms(Model* m) {
    std::vector<Model*> x, all; flat(m, x); Model* r = m; while (r->parent) r = r->parent; flat(r, all);
    std::vector<Sym> out; int anon = 0;
    for (auto n : x) {
        Sym s; s.arity = n->kids.size(); s.leaf = n->kids.empty(); s.number = 0; s.text = n->text;
        s.kind = n->tag == "mws:qvar" ? (n->hasName ? 2 : 3) : n->tag == "ci" ? (optC ? 1 : 4) : 0;
        if (s.kind == 3) s.number = anon++;
        if (s.kind == 1 || s.kind == 2) { // by first occurrence: identifiers in the formula, variables in the expression
            std::vector<Model*> same; for (auto o : s.kind == 1 ? all : x) if (s.kind == 1 ? o->tag == "ci" : (o->tag == "mws:qvar" && o->hasName)) same.push_back(o);
            auto nm = [&](Model* o) -> const S& { return s.kind == 1 ? o->text : o->name; };
            int before = 1;
            for (size_t i = 0; i < same.size(); i++) { int first = 1; for (size_t k = 0; k < i; k++) first &= !same_bytes(nm(same[k]), nm(same[i])); before &= !same_bytes(nm(same[i]), nm(n)); s.number += first & before; }
            s.text = "";
        }
        out.push_back(s);
    }
    return out;
}
static bool same(const std::vector<Sym>& a, const std::vector<Sym>& b) {
    if (a.size() != b.size()) return false;
    bool eq = true;
    for (size_t i = 0; i < a.size(); i++) { if (a[i].kind != b[i].kind || a[i].arity != b[i].arity || a[i].leaf != b[i].leaf) return false; eq = eq & (a[i].number == b[i].number) & same_bytes(a[i].text, b[i].text); }
    return eq;
}
struct Class { std::vector<Sym> s; int formulas; int seen; };
static std::vector<Class> classes;
static int begun, ended, calls, stopAt = -1; static bool stopped;
static std::vector<std::pair<std::pair<int, int>, std::pair<S, S>>> names; // how renamed identifiers and variables are shown
static bool shown(int kind, int number, const S& tag, const S& text) {
    for (auto& n : names) {
        bool eq = n.second.first.size() == tag.size() && same_bytes(n.second.first, tag) && n.second.second.size() == text.size() && same_bytes(n.second.second, text);
        bool me = n.first.first == kind && n.first.second == number;
        if (me) return eq;
        if (eq) return false;
    }
    names.push_back(std::make_pair(std::make_pair(kind, number), std::make_pair(tag, text)));
    return true;
}
static void nodes(const CmmlToken* t, std::vector<const CmmlToken*>& out) { out.push_back(t); for (auto k : t->getChildNodes()) { sx_assert(k->getParentNode() == t, "the children know their parent"); nodes(k, out); } }
static bool matches(const std::vector<const CmmlToken*>& ts, const std::vector<Sym>& s) {
    if (ts.size() != s.size()) return false;
    for (size_t i = 0; i < ts.size(); i++) {
        if (ts[i]->getChildNodes().size() != s[i].arity) return false;
        bool known = ts[i]->getTag() == "c" || ts[i]->getTag() == "r" || ts[i]->getTag() == "ci";
        if (s[i].kind == 0 || s[i].kind == 4) { if (ts[i]->getTag() != (s[i].kind == 4 ? "ci" : s[i].leaf ? "c" : "r") || !same_bytes(ts[i]->getTextContent(), s[i].text)) return false; }
        else if (known || (s[i].kind == 2) != (ts[i]->getTag() == "hvar") || (s[i].kind == 3) != (ts[i]->getTag() == "anonymous_hvar")) return false;
    }
    return true;
}
#ifndef EXAMPLE
namespace mws { namespace analytics {
AnalyticsStatus analyze_begin(const index_handle_t* index, const inode_t* root) {
    begun++; sx_assert(calls == 0 && ended == 0, "first the beginning");
    sx_assert(index != nullptr && root == IndexAccessor::getRootNode(index), "the index and its root");
    std::vector<Class*> firsts; // by first token
    for (auto& c : classes) { bool dup = false; for (auto d : firsts) { std::vector<Sym> x(1, c.s[0]), y(1, d->s[0]); dup |= same(x, y); } if (!dup) firsts.push_back(&c); }
    sx_assert(root->size == firsts.size(), "the root has a child for every first token");
    if (stopAt == 0) { stopped = true; return ANALYTICS_STOP; }
    return ANALYTICS_OK;
}
AnalyticsStatus analyze_expression(const mws::types::CmmlToken* t, uint32_t num_hits) {
    sx_assert(begun == 1 && ended == 0 && !stopped, "not before the beginning, and not after the end");
    calls++; sx_assert(t != nullptr && t->isRoot(), "a whole expression");
    std::vector<const CmmlToken*> ts; nodes(t, ts);
    int found = 0;
    // more than one class matches if they differ in the numbers of identifiers or variables: these have to be shown differently
    std::vector<Class*> open; for (auto& c : classes) if (matches(ts, c.s)) open.push_back(&c);
    for (auto c : open) {
        auto before = names; bool ok = true;
        for (size_t i = 0; i < ts.size(); i++) if (c->s[i].kind >= 1 && c->s[i].kind <= 3) ok = ok && shown(c->s[i].kind, c->s[i].number, ts[i]->getTag(), ts[i]->getTextContent());
        if (!ok || c->seen) { names = before; continue; }
        found++; c->seen++;
        sx_assert(num_hits == (uint32_t)c->formulas, "the number of formulas which contain the expression");
        break;
    }
    sx_assert(found == 1, "an expression of the index which was not handed over before");
    if (calls == stopAt) { stopped = true; return ANALYTICS_STOP; }
    return ANALYTICS_OK;
}
void analyze_end() { ended++; sx_assert(begun == 1, "the end comes last"); }
} }
extern "C" int vf_printf(const char*, ...) { return 0; }
#else
static uint64_t outHits, outUnique; static double outDepth, outSize; static int lines;
extern "C" int vf_printf(const char* f, ...) {
    va_list ap; va_start(ap, f); lines++;
    if (strstr(f, " hits")) outHits = va_arg(ap, uint64_t); else if (strstr(f, "unique")) outUnique = va_arg(ap, uint64_t);
    else if (strstr(f, "depth")) outDepth = va_arg(ap, double); else if (strstr(f, "size")) outSize = va_arg(ap, double);
    va_end(ap); return 1;
}
static int depthOf(Model* m) { int d = 0; for (auto k : m->kids) { int e = 1 + depthOf(k); if (e > d) d = e; } return d; }
#endif
extern "C" int vf_fprintf(FILE*, const char*, ...) { return 0; }
extern "C" void sx_main(void) {
    if (sx_native()) { char t[] = "/tmp/vfanaXXXXXX"; dir = mkdtemp(t); }
#ifdef VARS
    optC = sx_pick("c", 2);
#endif
#ifdef MANY
    for (int k = 0; k < 24; k++) fs.push_back(manyformula(k));
#else
    fs.push_back(formula(NT1));
    if (NT2) fs.push_back(formula(NT2 > 0 ? NT2 : 1));
#endif
    IndexConfiguration ic; ic.harvester.paths.push_back("h0"); ic.dataPath = dir; ic.deleteOldData = true; ic.harvester.encoding.renameCi = optC;
    sx_assert(createCompressedIndex(ic) == EXIT_SUCCESS, "the index is written");
    // what it contains
    double depth = 0, size = 0; uint64_t total = 0;
    for (auto& f : fs) {
        std::vector<size_t> mine; std::vector<Model*> subs; flat(f.root, subs);
        for (auto n : subs) {
            std::vector<Sym> s = syms(n); size_t k = 0; while (k < classes.size() && !same(classes[k].s, s)) k++;
            if (k == classes.size()) {
                Class c; c.s = s; c.formulas = 0; c.seen = 0; classes.push_back(c);
#ifdef EXAMPLE
                depth += depthOf(n); size += s.size();
#endif
            }
            bool counted = false; for (auto x : mine) counted |= x == k;
            if (!counted) { classes[k].formulas++; total++; mine.push_back(k); }
        }
    }
    bool missing = false;
#ifndef EXAMPLE
#ifdef MANY
    if (sx_pick("stop", 2)) stopAt = 40; else
#else
    if (sx_pick("stop", 2)) stopAt = sx_pick("after", classes.size() + 1); else
#endif
        missing = sx_pick("missing", 2);
#endif
    S path = missing ? S("nowhere") : dir;
    std::vector<S> args; args.push_back("analyze"); args.push_back("-I"); args.push_back(path);
    std::vector<char*> argv; for (auto& s : args) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); argv.push_back(p); } argv.push_back(nullptr);
    int rc = vf_main((int)args.size(), argv.data());
    sx_observe("rc", rc);
    sx_assert(mfs_open == 0 && mfs_maps == 0 && fl_open == 0, "everything is closed");
    sx_assert((rc == EXIT_SUCCESS) == !missing, "an index that is not there is reported");
#ifdef EXAMPLE
    sx_assert(outHits == total, "the number of hits"); sx_assert(outUnique == classes.size(), "the number of expressions");
    sx_assert(outDepth == depth / classes.size() && outSize == size / classes.size(), "the averages"); sx_assert(lines == 5, "five lines");
    if (total > classes.size()) sx_reach("common expression"); sx_reach("analysed");
#else
    if (missing) { sx_assert(begun == 0 && calls == 0, "and nothing is handed over"); sx_reach("missing"); }
    else if (stopAt >= 0) { sx_assert(begun == 1 && calls == stopAt, "nothing is handed over after a stop"); sx_assert(ended <= 1, "one end"); sx_reach("stopped"); }
    else {
        sx_assert(begun == 1 && ended == 1, "one beginning and one end");
        for (auto& c : classes) { sx_assert(c.seen == 1, "every expression of the index is handed over"); if (c.formulas > 1) sx_reach("common expression"); for (auto& s : c.s) { if (s.kind == 1) sx_reach("renamed"); if (s.kind == 2) sx_reach("variable"); if (s.kind == 3) sx_reach("no name"); } }
        sx_assert(calls == (int)classes.size(), "and nothing else");
    }
#endif
    if (sx_native()) { unlink((dir + "/" + MEANING_DICTIONARY_FILE).c_str()); rmdir(dir.c_str()); }
    (void)depth; (void)size; (void)total;
}
