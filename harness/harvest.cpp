// P14: a harvest document, played as SAX events: every expression and record handed over once, intact, in order.
#include "cmml.hpp"
#include "saxstub.hpp"
#include <libxml/xmlwriter.h>
#include "mws/xmlparser/processMwsHarvest.hpp"
#ifdef RECORDS
#define REC 1
#else
#define REC 0
#endif
#ifndef EVENTS
#define EVENTS 0
#endif
using namespace mws; using namespace mws::types; using namespace mws::parser; using namespace mws::dbc;
int verbose;
#define FD 7
extern "C" ssize_t vf_read(int fd, void*, size_t) { sx_assert(fd == FD, "the given descriptor is read"); return 0; }
// ---- the text writer: renders markup; the oracle renders the same way
struct Out { xmlOutputWriteCallback write; xmlOutputCloseCallback close; void* ctx; };
struct Wr { Out* out; std::string s; std::vector<std::string> open; bool tag; };
static int wLive, wFail = -1, wCalls;
static void esc(std::string& o, const char* p, size_t n) { // letters are arbitrary, markup characters concrete
    for (size_t i = 0; i < n; i++) { char c = p[i];
        if (sx_is_symbolic((unsigned char)c)) { o += c; continue; }
        if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else o += c; }
}
static void closeTag(Wr* w) { if (w->tag) { w->s += ">"; w->tag = false; } }
extern "C" {
xmlFreeFunc xmlFree = free; xmlMallocFunc xmlMalloc = malloc;
xmlChar* xmlEncodeSpecialChars(const xmlDoc*, const xmlChar* t) { std::string o; esc(o, (const char*)t, strlen((const char*)t)); char* r = (char*)malloc(o.size() + 1); memcpy(r, o.c_str(), o.size() + 1); return BAD_CAST r; }
xmlOutputBufferPtr xmlOutputBufferCreateIO(xmlOutputWriteCallback w, xmlOutputCloseCallback c, void* ctx, xmlCharEncodingHandlerPtr) { if (wCalls++ == wFail) return nullptr; Out* o = new Out(); o->write = w; o->close = c; o->ctx = ctx; wLive++; return (xmlOutputBufferPtr)o; }
int xmlOutputBufferClose(xmlOutputBufferPtr b) { if (!b) return -1; Out* o = (Out*)b; if (o->close) o->close(o->ctx); delete o; wLive--; return 0; }
xmlTextWriterPtr xmlNewTextWriter(xmlOutputBufferPtr b) { if (wCalls++ == wFail) return nullptr; Wr* w = new Wr(); w->out = (Out*)b; w->tag = false; wLive++; return (xmlTextWriterPtr)w; }
int xmlTextWriterStartElement(xmlTextWriterPtr x, const xmlChar* n) { Wr* w = (Wr*)x; closeTag(w); w->s += "<"; w->s += (const char*)n; w->open.push_back((const char*)n); w->tag = true; return 0; }
int xmlTextWriterWriteAttribute(xmlTextWriterPtr x, const xmlChar* n, const xmlChar* v) { Wr* w = (Wr*)x; if (!w->tag) return -1; w->s += " "; w->s += (const char*)n; w->s += "=\""; esc(w->s, (const char*)v, strlen((const char*)v)); w->s += "\""; return 0; }
int xmlTextWriterEndElement(xmlTextWriterPtr x) { Wr* w = (Wr*)x; if (w->open.empty()) return -1; if (w->tag) { w->s += "/>"; w->tag = false; } else { w->s += "</"; w->s += w->open.back(); w->s += ">"; } w->open.pop_back(); return 0; }
int xmlTextWriterFullEndElement(xmlTextWriterPtr x) { closeTag((Wr*)x); return xmlTextWriterEndElement(x); }
int xmlTextWriterWriteRawLen(xmlTextWriterPtr x, const xmlChar* t, int n) { Wr* w = (Wr*)x; closeTag(w); w->s.append((const char*)t, n); return n; }
int xmlTextWriterWriteRaw(xmlTextWriterPtr x, const xmlChar* t) { return xmlTextWriterWriteRawLen(x, t, (int)strlen((const char*)t)); }
int xmlTextWriterWriteString(xmlTextWriterPtr x, const xmlChar* t) { Wr* w = (Wr*)x; closeTag(w); esc(w->s, (const char*)t, strlen((const char*)t)); return 0; }
int xmlTextWriterEndDocument(xmlTextWriterPtr x) { Wr* w = (Wr*)x; while (!w->open.empty()) xmlTextWriterEndElement(x); return 0; }
int xmlTextWriterFlush(xmlTextWriterPtr x) { Wr* w = (Wr*)x; size_t n = w->s.size(), h = n / 2; if (h) w->out->write(w->out->ctx, w->s.data(), (int)h); if (n - h) w->out->write(w->out->ctx, w->s.data() + h, (int)(n - h)); w->s.clear(); return (int)n; }
void xmlFreeTextWriter(xmlTextWriterPtr x) { if (!x) return; xmlTextWriterFlush(x); xmlOutputBufferClose((xmlOutputBufferPtr)((Wr*)x)->out); delete (Wr*)x; wLive--; }
}
// ---- what is handed over, as text
struct Call { bool expr; std::string what, uri; uint32_t crawl; };
static std::vector<Call> want, got; static std::vector<uint32_t> crawlIds; static std::vector<int> returns; static uint64_t sum;
static int nPicks; // when many are handed over, all succeed
static bool useData; static uint32_t nextCrawl = 41;
static void show(const CmmlToken* t, std::string& o, const CmmlToken* parent) {
    sx_assert(t->getParentNode() == parent, "the tree is linked");
    o += "("; o += t->getTag(); o += "|"; o += t->getAttribute("name"); o += "|"; o += t->getTextContent(); for (auto c : t->getChildNodes()) show(c, o, t); o += ")";
}
struct Proc : HarvestProcessor {
    int processExpression(const CmmlToken* t, const std::string& uri, const uint32_t& crawl) {
        Call c; c.expr = true; sx_assert(t && t->isRoot(), "a complete expression"); show(t, c.what, nullptr); c.uri = uri; c.crawl = crawl; got.push_back(c);
        int r = !nPicks && sx_pick("stored", 2) ? -1 : 3; if (r != -1) sum += r; return r;
    }
    CrawlId processData(const std::string& d) {
        Call c; c.expr = false; c.what = d; c.crawl = !nPicks && sx_pick("recordfails", 2) ? (uint32_t)CRAWLID_NULL : nextCrawl++; got.push_back(c); return c.crawl;
    }
};
static bool isHarvest; static unsigned budget = NN; static bool errorNow; // an error inside the current expression
static uint32_t ids[3]; static bool idSet[3], idVague[3];
static bool event() {
#if EVENTS
    static int left = EVENTS; if (!left) return !saxBroken;
    unsigned k = sx_pick("event", 4); if (k) left--;
    if (k == 1) sax_warning();
    if (k == 2) { errorNow = true; sax_error(); }
    if (k == 3) { errorNow = true; sax_fatal(); }
#endif
    return !saxBroken;
}
static void tree(std::string& o, unsigned depth) {
    unsigned style = REC ? 0 : sx_pick("style", EVENTS ? 2 : 4); if (EVENTS) style *= 3;
    std::string tag = std::string("t") + (char)plain("tag") + pad, name, text, sent; Attrs a;
    if (style == 1) { name = pad + std::string(1, (char)plain("name")); a.push_back(std::make_pair(std::string("name"), name)); a.push_back(std::make_pair(std::string("x"), std::string("y"))); }
    sax_start(style == 2 ? "m:" + tag : tag, a); if (!event()) return;
    if (style) { for (int i = 0; i < 2; i++) { text += pad; text.push_back((char)plain("char")); } sent = style == 3 ? " " + text.substr(0, 1) + "\n" + text.substr(1) + " " : text; sax_text(sent, style == 3); }
    o += "(" + tag + "|" + name + "|" + text;
    while (depth && budget && sx_pick("child", 2)) { budget--; tree(o, depth - 1); if (saxBroken) return; }
    o += ")";
    sax_close(style == 2 ? "m:" + tag : tag);
}
static int which(Attrs& a, const char* name) { int k = (int)sx_pick("dataid", 3); if (k) a.push_back(std::make_pair(std::string(name), std::string(k == 1 ? "1" : "2"))); return k; }
static void sax_document() {
    if (!event()) return;
    isHarvest = sx_pick("root", 2) == 0; std::string root = isHarvest ? "mws:harvest" : "mws:harvests";
    sax_start(root, Attrs()); if (!event()) return;
    unsigned n = sx_pick("parts", NP + 1);
    for (unsigned i = 0; i < n; i++) {
        errorNow = false;
        #ifdef LONGTEXT
        switch (sx_pick("part", 5)) {
#else
        switch (sx_pick("part", REC ? 2 : 4)) {
#endif
        case 0: {
            Attrs a; std::string uri; int id = which(a, "mws:data_id");
            if (EVENTS || REC ? id : sx_pick("url", 2)) { uri = std::string("u") + pad + (char)plain("uri"); a.push_back(std::make_pair(std::string("url"), uri)); a.push_back(std::make_pair(std::string("other"), std::string("z"))); }
            sax_start("mws:expr", a); if (!event()) return;
            sax_text(" x ", false);
            unsigned k = REC ? 1 : sx_pick("trees", 3);
            for (unsigned j = 0; j < k && budget; j++) {
                budget--; errorNow = false; Call c; c.expr = true; c.uri = uri; c.crawl = useData && id && idSet[id] ? ids[id] : (uint32_t)CRAWLID_NULL; size_t before = got.size();
                tree(c.what, 2); if (saxBroken) return;
                if (isHarvest && !errorNow) want.push_back(c);
                (void)before;
                sax_text("\n", false);
            }
            sax_close("mws:expr"); break; }
        case 1: {
            Attrs a; int id = which(a, "mws:data_id"); int failing = wFail >= 0 ? wFail : -1; int calls0 = wCalls;
            sax_start("mws:data", a); if (!event()) return;
            std::string o;
            switch (REC ? 1 : sx_pick("content", 3)) {
            case 0: break;
            case 1: { std::string t = std::string("a&<") + pad + (char)plain("data"); sax_text(t + "\">", NP < 3); esc(o, (t + "\">").data(), t.size() + 2); break; }
            default: { Attrs b; std::string v = std::string("\"&") + pad + (char)plain("data"); b.push_back(std::make_pair(std::string("k"), v));
                sax_text("t", false); sax_start("mws:expr", b); if (!event()) return; sax_start("i", Attrs()); sax_close("i"); sax_text("v", false); sax_close("mws:expr"); sax_text("w", false);
                o = "t<mws:expr k=\"&quot;&amp;"; o += v.substr(2); o += "\"><i/>v</mws:expr>w"; break; }
            }
            size_t before = got.size();
            sax_close("mws:data");
            bool copied = id && !(failing >= calls0 && failing < wCalls);
            if (isHarvest && copied && useData) {
                Call c; c.expr = false; c.what = o;
                sx_assert(got.size() == before + 1 && !got.back().expr, "a record is stored before the expressions that follow");
                c.crawl = got.back().crawl; want.push_back(c);
                if (c.crawl != (uint32_t)CRAWLID_NULL) { ids[id] = c.crawl; idSet[id] = true; }
            }
            break; }
#ifdef LONGTEXT
        case 2: { // a deep tree, or a wide one
            bool deep = sx_pick("deep", 2); unsigned d = deep ? 30 + 6 * sx_pick("depth", 12) : 60 + 40 * sx_pick("width", 6);
            sax_start("mws:expr", Attrs()); Call c; c.expr = true; c.crawl = CRAWLID_NULL; c.what = "(r||"; std::string close;
            sax_start("r", Attrs());
            for (unsigned k = 0; k < d; k++) { std::string x(1, (char)('a' + k % 26)); sax_start("c", Attrs()); sax_text(x, false); c.what += "(c||" + x; if (!deep) { sax_close("c"); c.what += ")"; } else close += ")"; }
            if (deep) for (unsigned k = 0; k < d; k++) sax_close("c");
            c.what += close + ")"; sax_close("r"); sax_close("mws:expr");
            if (isHarvest) want.push_back(c);
            break; }
        default: { // many records, and expressions which refer to them
            unsigned m = 9 + 45 * sx_pick("many", 3); sx_assume(useData && isHarvest); std::vector<uint32_t> id(m);
            nPicks = 2;
            for (unsigned k = 0; k < m; k++) {
                Attrs a; a.push_back(std::make_pair(std::string("mws:data_id"), std::to_string(k))); std::string x = "d" + std::to_string(k);
                sax_start("mws:data", a); sax_text(x, false); sax_close("mws:data");
                Call c; c.expr = false; c.what = x; sx_assert(!got.empty() && !got.back().expr && got.back().what == x, "a record is stored before the expressions that follow"); c.crawl = id[k] = got.back().crawl; want.push_back(c);
            }
            for (unsigned k = 0; k < m; k++) {
                unsigned to = k * 7 % m; Attrs a; a.push_back(std::make_pair(std::string("mws:data_id"), std::to_string(to))); a.push_back(std::make_pair(std::string("url"), "u" + std::to_string(k)));
                sax_start("mws:expr", a); sax_start("c", Attrs()); sax_close("c"); sax_close("mws:expr");
                Call c; c.expr = true; c.uri = "u" + std::to_string(k); c.what = "(c||)"; c.crawl = id[to]; want.push_back(c);
            }
            nPicks = 0; break; }
        case 4: { // deep markup which is no part of a harvest, or in a record
            static const unsigned DS[] = {3, 4, 5, 9, 40}; static const char* const NM[] = {"mws:data", "mws:expr", "b", "mws:harvest"};
            unsigned d = DS[sx_pick("nesting", 5)]; bool record = sx_pick("record", 2); std::string o, close; Attrs a;
            if (record) { a.push_back(std::make_pair(std::string("mws:data_id"), std::string("1"))); sax_start("mws:data", a); } else sax_start("other", a);
            for (unsigned k = 0; k < d; k++) { const char* e = NM[k % 4]; sax_start(e, Attrs()); if (k % 3 == 2) { sax_start("i", Attrs()); sax_close("i"); o += std::string("<") + e + "><i/>"; } else { sax_text("y", false); o += std::string("<") + e + ">y"; } close = std::string("</") + e + ">" + close; }
            for (unsigned k = d; k--; ) sax_close(NM[k % 4]);
            sax_text("z", false); size_t before = got.size();
            sax_close(record ? "mws:data" : "other"); o += close + "z";
            if (record && isHarvest && useData) { Call c; c.expr = false; c.what = o; sx_assert(got.size() == before + 1 && !got.back().expr, "a record is stored before the expressions that follow"); c.crawl = got.back().crawl; want.push_back(c); }
            sax_start("mws:expr", Attrs()); sax_start("c", Attrs()); sax_close("c"); sax_close("mws:expr");
            if (isHarvest) { Call c; c.expr = true; c.crawl = CRAWLID_NULL; c.what = "(c||)"; want.push_back(c); }
            break; }
#else
        case 2:
            sax_start("other", Attrs()); sax_start("mws:expr", Attrs()); sax_start("ci", Attrs()); sax_text("x", false); sax_close("ci"); if (!event()) return; sax_close("mws:expr"); sax_start("mws:data", Attrs()); sax_close("mws:data"); sax_close("other"); break;
        default: sax_text("text", false); break;
#endif
        }
        if (!event()) return;
    }
    sax_close(root); event();
}
extern "C" void sx_main(void) {
    pickPad();
    saxNoContext = sx_pick("nocontext", 2); useData = EVENTS ? 1 : sx_pick("usedata", 2);
#ifdef WFAIL
    wFail = (int)sx_pick("writerfails", WFAIL + 1) - 1;
#endif
    Proc p;
    HarvestResult r = processHarvestFromFd(FD, &p, useData);
    sx_assert(saxLive == 0 && saxLocked == 0 && wLive == 0, "parser and writer are released");
    sx_assert(got.size() == want.size(), "everything is handed over once");
    for (size_t i = 0; i < want.size(); i++) {
        sx_assert(got[i].expr == want[i].expr, "in the order of the document");
        sx_assert(same_bytes(got[i].what, want[i].what), want[i].expr ? "the whole expression" : "the whole record");
        if (want[i].expr) { sx_assert(same_bytes(got[i].uri, want[i].uri), "with its own identifier"); sx_assert(got[i].crawl == want[i].crawl, "with the record it refers to"); if (want[i].crawl != (uint32_t)CRAWLID_NULL) sx_reach("refers to a record"); }
    }
    sx_assert(r.numExpressions == sum, "the number of expressions");
    sx_assert((r.status == 0) == (!saxNoContext && !saxBroken), "a document that is not well formed is reported");
    sx_reach(saxNoContext ? "no context" : saxBroken ? "broken" : !isHarvest ? "no harvest" : want.size() > 1 ? "several" : want.size() ? "one" : "nothing");
}
