// P33: harvests2json gives for every document of a harvest the ids under which the index answers its subexpressions.
#include "memfs.hpp"
#include "fakelevel.hpp"
#include "cmml.hpp"
#include "jsonstub.hpp"
#include <map>
#include <set>
#include <stdarg.h>
#include <unistd.h>
#include <libxml/tree.h>
#include "common/utils/util.hpp"
#include "crawler/parser/XmlParser.hpp"
#include "mws/daemon/IndexQueryHandler.hpp"
#include "mws/dbc/LevFormulaDb.hpp"
#include "mws/index/IndexWriter.hpp"
#include "mws/types/MwsAnswset.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"
#ifndef NT
#define NT 2
#endif
#ifndef NU
#define NU 1
#endif
#ifndef NF
#define NF 1
#endif
typedef std::string S;
using namespace mws; using namespace mws::index; using namespace mws::daemon; using mws::types::Query;
extern "C" int vf_main(int, char**);
// an expression of a harvest: of the doc-th document, or of none (-1)
struct F { std::vector<Model*> ns; Model* root; S uri; int doc; };
struct Doc { S data, id, text; std::vector<std::pair<S, S>> meta, math; bool broken; };
struct Harvest { S path; std::vector<F> fs; bool broken; };
static Harvest stored; static std::vector<Harvest> harvests; static std::vector<Doc> docs; static bool indexing; static int xmlDocs;
static S dir = "idx"; static bool optR, optE, optC; static S wantPath = "harvests";
static uint8_t plain(const char* n) { uint8_t c = sx_u8(n); sx_assume((c >= 'a') & (c <= 'z')); return c; }
static F formula(int n, const char* uri, int doc) {
    auto all = shapes(n, 2); F f;
#ifdef CI
    std::vector<std::vector<int>> two; for (auto& x : all) if (x.size() > 1 && (x.size() < 3 || x[0] == 2)) two.push_back(x);
    all = two;
#endif
    f.root = model_of(all[sx_pick("shape", all.size())], f.ns);
    for (auto m : f.ns) { m->tag = "c"; m->text = S(1, (char)plain("symbol")); }
#ifdef CI
    for (auto m : f.ns) if (m->kids.empty()) m->tag = sx_pick("ci", 2) ? "ci" : "c"; else m->text = "r";
    for (auto m : f.ns) if (m->tag == "ci") sx_assume(m->text[0] != 'p'); // never renamed
#endif
    f.uri = uri; f.doc = doc; return f;
}
#ifdef MANY
static Model* kid(F& f, Model* p, const S& t) { Model* m = new_model(p); m->tag = "c"; m->text = t; f.ns.push_back(m); if (!p) f.root = m; return m; }
static F manyformula(int k, const S& uri, int doc, char sym) {
    F f; f.uri = uri; f.doc = doc; Model* r = kid(f, nullptr, "f" + std::to_string(k % 6));
    if (k == 4) for (int i = 0; i < 20; i++) r = kid(f, r, "d");
    if (k == 7) for (int i = 0; i < 30; i++) kid(f, r, "w" + std::to_string(i % 15));
    kid(f, r, k == 3 ? S(1, sym) : S(1, (char)('a' + k % 7))); kid(f, r, "7");
    Model* g = kid(f, r, "g"); kid(f, g, S(1, (char)('a' + k % 3))); kid(f, kid(f, g, "h"), "7");
    return f;
}
#endif
// ---- the harvest directory
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
static int visited; static bool readFails, docsFirst;
namespace common { namespace utils {
int foreachEntryInDirectory(const S& path, const FileCallback& file, const DirectoryCallback& recurse) {
    if (indexing) { mfs_make("h0/a.harvest"); return file("h0/a.harvest", ""); }
    sx_assert(path == wantPath, "the directory that was given is read"); visited++;
    sx_assert(recurse("sub") == optR, "subdirectories are read exactly if asked for");
    if (readFails) return -1;
    for (auto& h : harvests) if (file(h.path, "")) return -1;
    return 0;
}
bool hasSuffix(const S& s, const S& x) { return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
void create_directory(const S& p, bool) { sx_assert(p == dir, "the given directory"); }
S humanReadableByteCount(uint64_t, bool) { return ""; }
S formattedString(const char* f, ...) { return f; }
S escapeJsonString(const S& s) { return "{" + s + "}"; }
} }
namespace mws { namespace parser {
HarvestResult processHarvestFromFd(int fd, HarvestProcessor* p, bool readData) {
    HarvestResult r; r.status = 0; r.numExpressions = 0;
    Harvest* h = indexing ? &stored : nullptr;
    if (!h) { MOpen* o = mo(fd); sx_assert(o && o->open, "a harvest is read while it is open"); for (auto& x : harvests) if (o->f->path == x.path) h = &x; }
    sx_assert(h != nullptr, "a harvest is read");
    sx_assert(readData, "documents are read");
    std::map<int, dbc::CrawlId> ids; size_t k = 0;
    if (docsFirst && !indexing) for (size_t i = 0; i < docs.size(); i++) ids[i] = p->processData(docs[i].data);
    for (auto& f : h->fs) {
        if (h->broken && k++ == 1) throw std::runtime_error("harvest");
        dbc::CrawlId c = dbc::CRAWLID_NULL;
        if (f.doc >= 0) { if (!ids.count(f.doc)) ids[f.doc] = p->processData(docs[f.doc].data); c = ids[f.doc]; }
        CmmlToken* t = build(f.root); int n = p->processExpression(t, f.uri, c); if (n > 0) r.numExpressions += n; delete t;
    }
    return r;
}
} }
// ---- documents
struct Node { xmlNode n; S tag, id, text; bool hasId; };
static void vf_xfree(void* p) { free(p); }
extern "C" {
xmlFreeFunc xmlFree = vf_xfree;
xmlChar* xmlGetProp(const xmlNode* n, const xmlChar* name) { const Node* m = (const Node*)n; sx_assert(!strcmp((const char*)name, "local_id"), "the id of a formula"); return m->hasId ? (xmlChar*)strdup(m->id.c_str()) : nullptr; }
void xmlFreeDoc(xmlDocPtr) { xmlDocs--; }
}
namespace crawler { namespace parser {
static Doc& D(xmlDoc* d) { return docs[(size_t)d - 1]; }
xmlDocPtr parseDocument(const char* content, int size) {
    for (size_t i = 0; i < docs.size(); i++) if (docs[i].data.size() == (size_t)size && !memcmp(content, docs[i].data.data(), size)) {
        if (docs[i].broken) throw std::runtime_error("document");
        xmlDocs++; return (xmlDocPtr)(i + 1);
    }
    sx_assert(false, "the data of a document is parsed"); return nullptr;
}
S getTextByXpath(xmlDoc* d, const S& x, MathIdDictionary* m, xmlNode* c) { sx_assert(!m && !c && (x == "//text" || x == "//id"), "text or id of the whole document"); return x == "//text" ? D(d).text : D(d).id; }
void processXpathResults(xmlDoc* d, const S& x, ProcessXmlNodeCallback cb) {
    bool math = x == "//math"; sx_assert(math || x == "//metadata/*", "formulas or metadata");
    for (auto& e : math ? D(d).math : D(d).meta) { Node n; memset(&n.n, 0, sizeof n.n); n.hasId = !e.first.empty(); n.tag = math ? S("math") : e.first; n.id = e.first; n.text = e.second; n.n.name = (const xmlChar*)n.tag.c_str(); cb(&n.n); }
}
S getTextFromNode(xmlNode* n, MathIdDictionary* m) { sx_assert(!m, "text without ids"); return ((Node*)n)->text; }
S getXmlFromNode(xmlDoc*, xmlNode* n) { return "<" + ((Node*)n)->text + ">"; }
} }
extern "C" int vf_fprintf(FILE* f, const char* fmt, ...) {
    if (f == stdout || f == stderr || !f) return 0;
    char b[300]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    sx_assert(n >= 0 && n < (int)sizeof b, "the line fits");
    return vf_fwrite(b, 1, n, f) || !n ? n : -1;
}
extern "C" int vf_printf(const char*, ...) { return 0; }
// ---- oracle
static void flat(Model* m, std::vector<Model*>& out) { out.push_back(m); for (auto k : m->kids) flat(k, out); }
// the number of a renamed identifier among those of its expression, in the order of their first occurrence
static int number(Model* m) {
    Model* r = m; while (r->parent) r = r->parent;
    std::vector<Model*> x, ci; flat(r, x); for (auto n : x) if (n->tag == "ci") ci.push_back(n);
    int n = 0, before = 1; // whether m's name has not occurred yet
    for (size_t i = 0; i < ci.size(); i++) { int first = 1; for (size_t k = 0; k < i; k++) first &= !same_bytes(ci[k]->text, ci[i]->text); before &= !same_bytes(ci[i]->text, m->text); n += first & before; }
    return n;
}
// equal, as they are indexed: identifiers, if they are renamed, are numbered throughout an expression
static bool same(Model* a, Model* b) {
    std::vector<Model*> x, y; flat(a, x); flat(b, y);
    if (x.size() != y.size()) return false;
    bool eq = true;
    for (size_t i = 0; i < x.size(); i++) {
        if (x[i]->kids.size() != y[i]->kids.size() || x[i]->tag != y[i]->tag) return false;
        eq = eq & (optC && x[i]->tag == "ci" ? number(x[i]) == number(y[i]) : same_bytes(x[i]->text, y[i]->text));
    }
    return eq;
}
static bool inIndex(Model* m) { for (auto& f : stored.fs) for (auto n : f.ns) if (same(n, m)) return true; return false; }
static MwsAnswset* ask(QueryHandler* h, Model* q) {
    Query query; query.tokens.push_back(build(q)); query.options.includeHits = false; query.options.includeMwsIds = true;
    query.attrResultLimitMin = 0; query.attrResultMaxSize = 10; query.attrResultTotalReqNr = 10;
    return static_cast<MwsAnswset*>(h->handleQuery(&query));
}
// the id under which a formula of the index is stored
#ifdef MANY
static std::map<std::pair<S, S>, int64_t> idMap;
static int64_t idOf(dbc::FormulaDb* db, const S& uri, const S& xpath) {
    if (idMap.empty()) for (unsigned id = 1; id <= 300; id++) db->queryFormula(id, 0, 1000, [&](const dbc::CrawlId&, const mws::types::FormulaPath& p) { idMap[std::make_pair(p.xmlId, p.xpath)] = id; return 0; });
    auto i = idMap.find(std::make_pair(uri, xpath)); return i == idMap.end() ? -1 : i->second;
}
#else
static int64_t idOf(dbc::FormulaDb* db, const S&, const S& xpath) {
    for (unsigned id = 1; id <= 2 * NT; id++) { bool hit = false; db->queryFormula(id, 0, 10, [&](const dbc::CrawlId&, const mws::types::FormulaPath& p) { hit = hit | (p.xmlId == "s#1" && p.xpath == xpath); return 0; }); if (hit) return id; }
    return -1;
}
#endif
static std::string outOf(const S& path) { MFile* f = mfs_find(path.c_str()); return f ? S(f->data.begin(), f->data.end()) : S(); }
static S rendering(JNode* n) { return n->out; }
extern "C" void sx_main(void) {
    if (sx_native()) { char t[] = "/tmp/vfh2jXXXXXX"; dir = mkdtemp(t); }
#ifdef CI
    optC = sx_pick("c", 2);
#endif
    // the index
#ifdef MANY
    uint8_t sym = sx_u8("symbol"); sx_assume((sym >= 'a') & (sym <= 'i'));
    stored.broken = false; for (int k = 0; k < 14; k++) stored.fs.push_back(manyformula(k, "s#" + std::to_string(k), -1, 'b'));
#else
    stored.broken = false; stored.fs.push_back(formula(NT, "s#1", -1));
#endif
    indexing = true; IndexConfiguration ic; ic.harvester.paths.push_back("h0"); ic.dataPath = dir; ic.deleteOldData = true; ic.harvester.encoding.renameCi = optC;
    sx_assert(createCompressedIndex(ic) == EXIT_SUCCESS, "the index is written"); indexing = false;
    // the harvests
    unsigned kind = sx_pick("kind", KINDS); // what varies
    optR = kind == 1 && sx_pick("r", 2); optE = kind == 1 && sx_pick("e", 2);
#ifdef MANY
    unsigned nd = 12;
#else
    unsigned nd = kind == 2 ? 2 : 1;
#endif
    for (unsigned i = 0; i < nd; i++) { Doc d; d.data = S("data") + std::to_string(i); d.id = S("id") + std::to_string(i); d.text = S("text") + (char)plain("text"); d.broken = false; docs.push_back(d); }
    if (kind == 2) { // what documents contain
        docs[0].meta.push_back(std::make_pair(S("title"), S("T\"") + (char)plain("meta")));
        if (sx_pick("meta", 2)) docs[0].meta.push_back(std::make_pair(S("author"), S("A")));
        unsigned nm = sx_pick("formulas", 3);
        for (unsigned i = 0; i < nm; i++) { unsigned w = sx_pick("local_id", 2); docs[1].math.push_back(std::make_pair(w ? S(1, (char)('1' + i)) : S(), S(1, (char)plain("math")))); }
    }
    const char* ext = optE ? "xml" : "harvest"; S name = S("harvests/a.") + ext;
    Harvest h; h.path = name; h.broken = false;
    unsigned nf = kind == 0 ? 1 + sx_pick("expressions", NF) : kind == 2 ? 2 : 1;
    docsFirst = kind == 2 && sx_pick("documents_first", 2);
#ifdef MANY
    docsFirst = sx_pick("documents_first", 2);
    for (int i = 0; i < 12; i++) for (int k = 0; k < 10; k++) { docs[i].meta.push_back(std::make_pair("m" + std::to_string(k), "v" + std::to_string(i * k))); docs[i].math.push_back(std::make_pair(k % 4 == 3 ? S() : "l" + std::to_string(k), "x" + std::to_string(i * 10 + k))); }
    for (int k = 0; k < 18; k++) h.fs.push_back(manyformula(k + 2, "u#" + std::to_string(k % 13), k % 7 == 6 ? -1 : k % 12, (char)sym));
#else
    for (unsigned i = 0; i < nf; i++) { static const char* const URI[] = {"u#1", "u#2", "u#3"}; h.fs.push_back(formula(kind ? 1 : NU, kind == 0 && sx_pick("uri", 2) ? "u#0" : URI[i], kind == 0 && sx_pick("without", 2) ? -1 : docsFirst ? (int)sx_pick("document", 2) : nd == 2 ? (int)i : 0)); }
#endif
    harvests.push_back(h);
    bool other = kind == 1 && sx_pick("other_file", 2), exists = kind == 1 && sx_pick("converted_before", 2), second = kind == 3;
    if (other) { Harvest o = h; o.path = S("harvests/b.") + (optE ? "harvest" : "txt"); harvests.push_back(o); }
    if (second) { Harvest o = h; o.path = S("harvests/c.") + ext; harvests.push_back(o); }
    for (auto& x : harvests) mfs_make(x.path.c_str());
    if (exists) { MFile* f = mfs_make((name + ".json").c_str()); f->data.push_back('!'); }
    // failures
    unsigned failure = kind == 3 ? sx_pick("failure", 5) : 0; bool fault = failure != 0;
    switch (failure) {
    case 1: mfs_fail_write = mfs_write_calls + sx_pick("write", 6); break;
    case 2: mfs_fail_call = mfs_calls + sx_pick("call", 16); break;
    case 3: { Doc b = docs[0]; b.data = "bad"; b.broken = true; docs.push_back(b); unsigned w = sx_pick("which", 2); harvests[w].fs[0].doc = 1; break; }
    case 4: if (sx_pick("directory", 2)) readFails = true; else { unsigned w = sx_pick("which", 2); harvests[w].broken = true; harvests[w].fs.push_back(harvests[w].fs[0]); } break;
    }
    int writes0 = mfs_fail_write, calls0 = mfs_fail_call;
    std::vector<S> args; args.push_back("harvests2json"); 
    if (optR) args.push_back("-r");
    args.push_back("-I"); args.push_back(dir); args.push_back("-H"); args.push_back("harvests");
    if (optC) args.push_back("-c");
    if (optE) { args.push_back("-e"); args.push_back("xml"); }
    std::vector<char*> argv; for (auto& s : args) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); argv.push_back(p); } argv.push_back(nullptr);
    int j0 = j_live;
    int rc = vf_main((int)args.size(), argv.data());
    sx_observe("rc", rc);
    sx_assert(mfs_open == 0 && mfs_maps == 0 && fl_open == 0 && fl_iters == 0, "everything is closed");
    sx_assert(j_live == j0 && xmlDocs == 0, "everything is released");
    bool hit = (writes0 >= 0 && mfs_write_calls > writes0) || (calls0 >= 0 && mfs_calls > calls0) || failure >= 3;
    sx_assert((rc == EXIT_SUCCESS) == !hit, "failures are reported, and nothing else");
    if (hit) sx_reach("failed");
    mfs_fail_write = mfs_fail_call = -1;
    IndexQueryHandler::Config qc; qc.encoding.renameCi = optC; IndexQueryHandler disk(dir, qc); size_t complete = 0, next = 0;
    dbc::LevFormulaDb db; db.open((dir + "/" + FORMULA_DB_FILE).c_str());
    std::map<Model*, S> xpaths; for (auto& f : stored.fs) { CmmlToken* t = build(f.root); for (auto m : f.ns) xpaths[m] = m->tok->getXpath(); delete t; }
    for (auto& x : harvests) {
        S out = outOf(x.path + ".json");
        if (other && &x == &harvests[1]) { sx_assert(!mfs_find((x.path + ".json").c_str()), "other files are not converted"); sx_reach("other file"); continue; }
        if (exists && &x == &harvests[0]) { sx_assert(out == "!", "what was converted before is kept"); sx_reach("converted before"); continue; }
        if (!mfs_find((x.path + ".json").c_str())) { sx_assert(hit, "every harvest is converted"); continue; }
        complete++;
        // what is in this harvest: its documents in order
        std::vector<int> ds; if (docsFirst) for (size_t i = 0; i < docs.size(); i++) ds.push_back(i);
        for (auto& f : x.fs) if (f.doc >= 0) { bool known = false; for (int d : ds) known |= d == f.doc; if (!known) ds.push_back(f.doc); }
        size_t at = 0;
        for (int d : ds) {
            Doc& doc = docs[d]; 
            S line = "{\"index\" : { \"_id\" : \"{" + doc.id + "}\" } }\n";
            sx_assert(out.compare(at, line.size(), line) == 0, "the line that names the document"); at += line.size();
            JNode* j = nullptr; for (auto r : j_all) { S s = rendering(r) + "\n"; if (!out.compare(at, s.size(), s)) j = r; }
            sx_assert(j != nullptr, "and its record"); at += rendering(j).size() + 1;
            sx_assert(j_text(j_field(j, "text"), doc.text), "the text of the document");
            JNode* m = j_field(j, "metadata"); sx_assert(m && m->kind == 'o' && m->fields.size() == doc.meta.size(), "the metadata of the document");
            for (auto& e : doc.meta) sx_assert(j_text(j_field(m, e.first.c_str()), e.second), "each metadata item");
            m = j_field(j, "math"); size_t nm = 0; for (auto& e : doc.math) if (!e.first.empty()) { nm++; sx_assert(j_text(j_field(m, e.first.c_str()), e.second), "each formula that has an id"); }
            sx_assert(m && m->kind == 'o' && m->fields.size() == nm, "and no other formulas");
            // the subexpressions
            std::vector<Model*> subs; std::vector<const F*> of; size_t missing = 0;
            std::vector<CmmlToken*> built;
            for (auto& f : x.fs) if (f.doc == d) { built.push_back(build(f.root)); for (auto n : f.ns) if (inIndex(n)) { subs.push_back(n); of.push_back(&f); } else missing++; }
            JNode *ids = j_field(j, "mws_ids"), *maps = j_field(j, "mws_id"); size_t distinct = 0;
            sx_assert(ids && ids->kind == 'a' && maps && maps->kind == 'o', "the ids");
            for (size_t i = 0; i < subs.size(); i++) {
                bool first = true; for (size_t k = 0; k < i; k++) if (same(subs[k], subs[i])) first = false;
                if (!first) continue;
                S xpath0 = subs[i]->tok->getXpath();
                Model* q = subs[i]; int64_t id = -1;
                for (auto& f : stored.fs) for (auto m : f.ns) if (id < 0 && same(m, q)) id = idOf(&db, f.uri, xpaths[m]);
                sx_assert(id >= 0, "the formula is stored"); distinct++;
                if (!optC) {
                    std::vector<CmmlToken*> toks; std::vector<Model*> st(1, q), flat; while (!st.empty()) { Model* t = st.back(); st.pop_back(); flat.push_back(t); toks.push_back(t->tok); for (auto k : t->kids) st.push_back(k); }
                    std::unique_ptr<MwsAnswset> a(ask(&disk, q));
                    for (size_t k = 0; k < flat.size(); k++) flat[k]->tok = toks[k];
                    sx_assert(a && a->ids.size() == 1 && *a->ids.begin() == id, "the index answers the subexpression with this id");
                }
                int n = 0; for (auto y : ids->items) n += j_int(y, id); sx_assert(n == 1, "the id under which the index answers it, once");
                JNode* map = j_field(maps, std::to_string(id).c_str()); sx_assert(map && map->kind == 'o', "where it occurs");
                std::set<S> uris;
                for (size_t k = i; k < subs.size(); k++) if (same(subs[k], subs[i])) uris.insert(of[k]->uri);
                sx_assert(map->fields.size() == uris.size(), "each formula it occurs in, once");
                for (auto& u : map->fields) { bool ok = false; JNode* xp = j_field(u.second, "xpath"); for (size_t k = i; k < subs.size(); k++) if (of[k]->uri == u.first && same(subs[k], subs[i])) ok = ok | j_text(xp, subs[k]->tok->getXpath()); sx_assert(ok, "with the place where it occurs"); }
            }
            sx_assert(ids->items.size() == distinct && maps->fields.size() == distinct, "no other ids");
            for (auto t : built) delete t;
            sx_reach(distinct == 0 ? "no id" : distinct == 1 ? "one id" : "several ids"); if (missing) sx_reach("not in the index");
        }
        sx_assert(at == out.size(), "and nothing else");
        if (ds.empty()) sx_reach("no document"); if (ds.size() > 1) sx_reach("two documents");
    }
    if (optC) sx_reach("renamed"); if (optR) sx_reach("recursive"); if (optE) sx_reach("extension");
    if (hit && complete) sx_reach("one of two");
    (void)fault; (void)next;
    if (sx_native()) { unlink((dir + "/" + MEANING_DICTIONARY_FILE).c_str()); rmdir(dir.c_str()); }
}
