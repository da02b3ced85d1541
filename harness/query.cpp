// P15: a query document, played as SAX events, becomes exactly the query it describes.
#include "cmml.hpp"
#include "saxstub.hpp"
#include <stdio.h>
#include "build-gen/config.h"
#include "mws/xmlparser/readMwsQuery.hpp"
#include "mws/xmlparser/MwsXmlResponseFormatter.hpp"
#include "mws/xmlparser/MwsJsonResponseFormatter.hpp"
#include "mws/xmlparser/MwsIdsResponseFormatter.hpp"
#include "mws/xmlparser/SchemaJsonResponseFormatter.hpp"
#include "mws/xmlparser/SchemaXmlResponseFormatter.hpp"
using namespace mws; using namespace mws::types; using namespace mws::parser; using namespace mws::xmlparser;
int verbose;
static FILE* const in = (FILE*)&verbose;
extern "C" size_t vf_fread(void*, size_t, size_t, FILE* f) { sx_assert(f == in, "the given stream is read"); return 0; }
// stand-ins: only their identity matters
struct F : Query::ResponseFormatter { const char* getContentType() const { return "x"; } int writeData(const GenericAnswer*, FILE*) const { return 0; } };
static F fx, fj, fi, sx_, sj; // only compared
namespace mws { namespace parser {
#define FMT_(n, v) decltype(n) n = (decltype(n))(void*)&v;
FMT_(RESPONSE_FORMATTER_MWS_XML, fx) FMT_(RESPONSE_FORMATTER_MWS_JSON, fj) FMT_(RESPONSE_FORMATTER_MWS_IDS, fi) FMT_(RESPONSE_FORMATTER_SCHEMA_XML, sx_) FMT_(RESPONSE_FORMATTER_SCHEMA_JSON, sj)
} }
static std::vector<Model*> want; static bool errorSeen, isQuery, schema;
static std::string sizeV, minV, totalV, depthV, cutV, outV; static bool sizeP, minP, totalP, depthP, cutP, outP;
static unsigned budget = NN;
static bool event() { // something happens between two pieces of markup
#ifdef EVENTS
    static int left = EVENTS; if (!left) return !saxBroken;
    unsigned k = sx_pick("event", 4); if (k) left--;
    if (k == 1) sax_warning();
    if (k == 2) { errorSeen = true; sax_error(); }
    if (k == 3) { errorSeen = true; sax_fatal(); }
#endif
    return !saxBroken;
}
static void tree(Model* m, unsigned depth) {
    m->tag = std::string("t") + (char)plain("tag") + pad;
    Attrs a; unsigned style = sx_pick("style", 4);
    if (style == 1) { m->hasName = true; m->name = pad + std::string(1, (char)plain("name")); a.push_back(std::make_pair(std::string("name"), m->name)); a.push_back(std::make_pair(std::string("x"), std::string("y"))); }
    std::string tag = style == 2 ? "m:" + m->tag : m->tag;
    sax_start(tag, a);
    if (!event()) return;
    if (style) { std::string s; for (int i = 0; i < 2; i++) { s += pad; s.push_back((char)plain("char")); } m->text = s; if (style == 3) s = " " + s.substr(0, 1) + "\n" + s.substr(1) + " "; sax_text(s, style == 3); }
    while (depth && budget && sx_pick("child", 2)) { budget--; tree(new_model(m), depth - 1); if (saxBroken) return; }
    sax_close(tag);
}
#ifdef OPTIONS
static bool opt(Attrs& a, const char* name, std::string* v) {
    a.push_back(std::make_pair(std::string(name), *v)); return true;
}
#endif
static void sax_document() {
    if (!event()) return;
    Attrs a; isQuery = true;
#ifdef OPTIONS
    switch (sx_pick("option", 8)) {
    case 0: break;
    case 1: case 2: case 3: { // numbers
        unsigned w = sx_pick("which", 3), n = sx_pick("length", NB + 1); std::string v;
        for (unsigned i = 0; i < n; i++) { unsigned char c = sx_u8("digit"); sx_assume(c != 0); v.push_back((char)c); }
        unsigned big = sx_pick("long", 3); if (big == 1) v += "99999999999"; if (big == 2) v += "99999999999999999999";
        if (w == 0) { sizeV = v; sizeP = opt(a, "answsize", &sizeV); } else if (w == 1) { minV = v; minP = opt(a, "limitmin", &minV); } else { depthV = v; depthP = opt(a, "schema_depth", &depthV); }
        break; }
    case 4: { static const char* V[] = {"yes", "no", "1", "0", "YES", "No", "", "true", "ye", "yess"}; totalV = V[sx_pick("total", 10)]; totalP = opt(a, "totalreq", &totalV); break; }
    case 5: { static const char* V[] = {"R", "A", "x", "", "a", "B"}; cutV = V[sx_pick("cutoff", 6)]; cutP = opt(a, "cutoff_mode", &cutV); break; }
    case 6: { static const char* V[] = {"xml", "json", "mws-ids", "XML", "", "jso"}; outV = V[sx_pick("output", 6)]; outP = opt(a, "output", &outV); break; }
    default: // everything at once, in both orders
        sizeV = "7"; minV = "8"; depthV = "9"; totalV = "no"; cutV = "R"; outV = "json";
        sizeP = opt(a, "answsize", &sizeV); minP = opt(a, "limitmin", &minV); depthP = opt(a, "schema_depth", &depthV);
        totalP = opt(a, "totalreq", &totalV); cutP = opt(a, "cutoff_mode", &cutV); outP = opt(a, "output", &outV);
        if (sx_pick("backwards", 2)) { Attrs r(a.rbegin(), a.rend()); a = r; }
        break;
    }
    if (sx_pick("others", 2)) { a.insert(a.begin(), std::make_pair(std::string("xmlns:mws"), std::string("u"))); a.push_back(std::make_pair(std::string("answsizes"), std::string("5"))); }
    std::string root = "mws:query";
#else
    std::string root; switch (sx_pick("root", 3)) { case 0: root = "mws:query"; break; case 1: root = "mws:querys"; isQuery = false; break; default: root = "mws:expr"; isQuery = false; break; }
#endif
    sax_start(root, a);
    if (!event()) return;
    unsigned n = sx_pick("parts", NP + 1);
    for (unsigned i = 0; i < n; i++) {
        switch (sx_pick("part", 3)) {
        case 0: { // an expression element with any number of trees
            sax_start("mws:expr", Attrs()); if (!event()) return;
            sax_text(" ", false);
            unsigned k = sx_pick("trees", 3);
            for (unsigned j = 0; j < k && budget; j++) { budget--; Model* m = new_model(nullptr); tree(m, 2); if (saxBroken) return; if (isQuery) want.push_back(m); sax_text("\n", false); }
            sax_close("mws:expr"); break; }
#ifdef LONGTEXT
        case 1: { // a deep tree, and a wide one
            bool deep = sx_pick("deep", 2); unsigned d = deep ? 30 + 6 * sx_pick("depth", 12) : 60 + 40 * sx_pick("width", 6);
            sax_start("mws:expr", Attrs()); Model* m = new_model(nullptr); if (isQuery) want.push_back(m);
            m->tag = "r"; sax_start("r", Attrs()); Model* p = m;
            for (unsigned k = 0; k < d; k++) { Model* c = new_model(p); c->tag = "c"; c->text = std::string(1, (char)('a' + k % 26)); sax_start("c", Attrs()); sax_text(c->text, false); if (deep) p = c; else sax_close("c"); }
            if (deep) for (unsigned k = 0; k < d; k++) sax_close("c");
            sax_close("r"); sax_close("mws:expr"); break; }
        case 2: { // deep markup which is no part of a query, before an expression
            static const unsigned DS[] = {3, 4, 5, 9, 40}; static const char* const NM[] = {"mws:query", "mws:expr", "ci", "mws:expr"}; unsigned d = DS[sx_pick("nesting", 5)];
            sax_start("other", Attrs());
            for (unsigned k = 0; k < d; k++) { sax_start(NM[k % 4], Attrs()); if (k % 3 == 2) { sax_start("mws:expr", Attrs()); sax_close("mws:expr"); } sax_text("y", false); }
            for (unsigned k = d; k--; ) sax_close(NM[k % 4]);
            sax_start("mws:expr", Attrs()); sax_start("ci", Attrs()); sax_close("ci"); sax_close("mws:expr");
            sax_close("other");
            sax_start("mws:expr", Attrs()); sax_start("c", Attrs()); sax_close("c"); sax_close("mws:expr");
            Model* m = new_model(nullptr); m->tag = "c"; if (isQuery) want.push_back(m);
            break; }
#else
        case 1: // unknown markup which contains what would mean something outside
            sax_start("other", Attrs()); sax_start("mws:expr", Attrs()); sax_start("ci", Attrs()); sax_text("x", false); sax_close("ci"); if (!event()) return; sax_close("mws:expr"); sax_close("other"); break;
#endif
        default: sax_text("text", false); break;
        }
        if (!event()) return;
    }
    sax_close(root); event();
}
static bool sameTree(const Model* m, const CmmlToken* t, const std::string& at) {
    if (t->getTag() != m->tag || !same_bytes(t->getTextContent(), m->text) || t->getXpath() != at) return false;
    bool ok = true;
    if (m->hasName) ok = ok & same_bytes(t->getAttribute("name"), m->name) & (t->getAttribute("x") == "y");
    if (t->getChildNodes().size() != m->kids.size()) return false;
    size_t i = 0;
    for (auto c : t->getChildNodes()) { if (c->getParentNode() != t) return false; ok = ok & sameTree(m->kids[i], c, at + "/*[" + std::to_string(i + 1) + "]"); i++; }
    return ok;
}
static void number(const std::string& v, bool given, size_t def, size_t max, size_t got, const char* what) {
    if (!given) { sx_assert(got == def, what); return; }
    bool digits = !v.empty(), odd = false; size_t n = 0;
    for (char c : v) { bool d = c >= '0' && c <= '9'; odd = odd | (c == ' ') | ((c >= 9) & (c <= 13)) | (c == '+') | (c == '-'); digits = digits & d; }
    if (digits) { for (char c : v) { n = n * 10 + (size_t)(c - '0'); if (n > 0xffffffffffULL) n = 0xffffffffffULL; } sx_assert(got == (n > max ? max : n), what); sx_reach(v.size() > 9 ? "large number" : "number"); }
    else if (!odd) { sx_assert(got == def, what); sx_reach("malformed number"); }
    else sx_assert(got <= max, what); // blanks and signs: a number or malformed
}
extern "C" void sx_main(void) {
    pickPad();
    schema = sx_pick("schema", 2); saxNoContext = sx_pick("nocontext", 2);
    uint64_t heap = sx_live_heap();
    SX_SHARE(1); Query* q = readMwsQuery(in, schema ? QUERY_SCHEMA : QUERY_MWS); SX_SHARE(0);
    sx_assert(saxLive == 0 && saxLocked == 0, "the parser is released");
    sx_assert((q != nullptr) == (!saxNoContext && !errorSeen), "a query exactly for a readable document");
    if (!q) { sx_reach(saxBroken ? "broken" : "refused"); return; }
    sx_assert(q->tokens.size() == want.size(), "one tree for each tree of the document");
    for (size_t i = 0; i < want.size(); i++) { sx_assert(sameTree(want[i], q->tokens[i], "/*[1]"), "the trees of the document"); sx_assert(q->tokens[i]->isRoot(), "a complete tree"); }
    sx_reach(!isQuery ? "no query element" : want.size() > 1 ? "several trees" : want.size() ? "one tree" : "no tree");
    q->applyRestrictions();
    number(sizeV, sizeP, DEFAULT_QUERY_RESULT_SIZE, MAX_QUERY_RESULT_SIZE, q->attrResultMaxSize, "number of results");
    number(minV, minP, DEFAULT_QUERY_OFFSET, MAX_QUERY_OFFSET, q->attrResultLimitMin, "first result");
    number(depthV, depthP, DEFAULT_SCHEMA_DEPTH, 255, q->max_depth, "schema depth");
    sx_assert(q->attrResultTotalReqNr == (MAX_QUERY_RESULT_TOTAL < DEFAULT_QUERY_RESULT_TOTAL ? MAX_QUERY_RESULT_TOTAL : DEFAULT_QUERY_RESULT_TOTAL), "number of counted results");
    bool total = DEFAULT_QUERY_TOTALREQ;
    if (totalV == "yes" || totalV == "YES" || totalV == "1") total = true;
    if (totalV == "no" || totalV == "No" || totalV == "0") total = false;
    sx_assert(q->attrResultTotalReq == total, "total wanted");
    sx_assert((q->cutoff_mode == 'R') == (cutV == "R"), "cut-off mode");
    const Query::ResponseFormatter* f = schema ? &sj : &fx;
    if (outV == "xml") f = schema ? &sx_ : &fx;
    if (outV == "json") f = schema ? &sj : &fj;
    bool ids = outV == "mws-ids" && !schema; if (ids) f = &fi;
    sx_assert((const void*)q->responseFormatter == (const void*)f, "output format");
    sx_assert(q->options.includeHits == !ids && q->options.includeMwsIds, "what the answer contains");
    delete q;
    (void)heap;
}
