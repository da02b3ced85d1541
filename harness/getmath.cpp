// P21: the formulas of a page: exactly its outermost math elements, complete, in order, with page and id.
#include <sx.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <libxml/parser.h>
#include <libxml/xpath.h>
#include <libxml/xpathInternals.h>
#include "crawler/utils/MwsGetMath.hpp"
#include "crawler/utils/Page.hpp"
#include "build-gen/config.h"
#ifndef NF
#define NF 3
#endif
#ifndef NN
#define NN 2
#endif
using namespace mws;
int verbose;
enum { PHTML = 1, PXHTML, POTHER };
static std::string pageText, pageUrl, pageHeader;
Page::Page(GURL g) : url(g), downloadedHeader(0), downloadedContent(0) {}
Page::Page(std::string s) : downloadedHeader(0), downloadedContent(0) {}
const std::string Page::getUrl() { return pageUrl; }
const std::string& Page::getHeader() { header = pageHeader; return header; }
const std::string& Page::getContent() { content = pageText; return content; }
static bool sx_eq(const char* a, const char* b, size_t n) { int d = 0; for (size_t i = 0; i < n; i++) d |= a[i] ^ b[i]; return !d; }
static bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && sx_eq(a.data(), b.data(), a.size()); }
static std::string esc(const std::string& t) { std::string o; for (char c : t) { if (sx_is_symbolic((unsigned char)c)) o += c; else if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else o += c; } return o; }
static char letter(const char* n) { char c = (char)sx_u8(n); unsigned char u = c; sx_assume(((u >= 'a') & (u <= 'z')) | ((u >= 'A') & (u <= 'Z')) | ((u >= '0') & (u <= '9')) | (u == '_') | (u >= 0x80)); return c; }
static const char TAGS[] = "[TagList]\n0=\"<abs  ... />\"\n1=\"<math> ... </math>\"\n2=\"<mi> ... </mi>\"\n5=\"<annotation> ... </annotation>\"\n3=\"<annotation-xml> ... </annotation-xml>\"\n4=\"<none/>\"\n";
extern "C" int vf_stream_read(const char* path, std::string* out) {
    sx_assert(strstr(path, "MwsMathMLTags.txt") != nullptr, "the list of tags is read");
    *out = TAGS; return 1;
}
extern "C" int vf_stream_write(const char*, const char*, size_t, int) { sx_fail("nothing is written to files"); return 0; }
// ---- XML stand-ins
static int live; static xmlDocPtr pageDoc; static bool pageBad; static std::vector<std::string> checked; static std::vector<bool> good;
static const char HEAD[] = "<?xml version=\"1.0\" ?> <mws:harvest xmlns:m=\"http://www.w3.org/1998/Math/MathML\" xmlns:mws=\"http://search.mathweb.org/ns\">", TAIL[] = "</mws:harvest>";
static bool xhtml; static bool noContext, noNs, evalFails; static int calls;
struct Elem { xmlNode n[4]; std::string text, id; bool hasId; };
static std::vector<Elem*> elems; static xmlNodeSet nset; static xmlNode* ntab[8];
extern "C" {
xmlFreeFunc xmlFree = free;
xmlDocPtr xmlParseMemory(const char* b, int n) {
    std::string s(b, n);
    if (xhtml && !calls++) { sx_assert(same(s, pageText), "the page is parsed"); if (pageBad) return nullptr; live++; return pageDoc = (xmlDocPtr)malloc(1); }
    size_t h = sizeof HEAD - 1, t = sizeof TAIL - 1;
    sx_assert(s.size() >= h + t && sx_eq(s.data(), HEAD, h) && sx_eq(s.data() + s.size() - t, TAIL, t), "a formula is tried as part of a harvest");
    checked.push_back(s.substr(h, s.size() - h - t)); 
#ifdef MANY
    bool ok = checked.size() % 7 != 3;
#else
    bool ok = sx_pick("wellformed", 2) == 0;
#endif
    good.push_back(ok);
    if (!ok) return nullptr;
    live++; return (xmlDocPtr)malloc(1);
}
void xmlFreeDoc(xmlDocPtr d) { if (d) { live--; free(d); } }
xmlXPathContextPtr xmlXPathNewContext(xmlDocPtr d) { sx_assert(d == pageDoc, "the page is searched"); if (noContext) return nullptr; live++; return (xmlXPathContextPtr)malloc(1); }
int xmlXPathRegisterNs(xmlXPathContextPtr, const xmlChar* p, const xmlChar* u) { sx_assert(!strcmp((const char*)p, "m") && !strcmp((const char*)u, "http://www.w3.org/1998/Math/MathML"), "MathML is searched"); return noNs ? -1 : 0; }
xmlXPathObjectPtr xmlXPathEvalExpression(const xmlChar* x, xmlXPathContextPtr) {
    if (evalFails) return nullptr;
    live++; xmlXPathObjectPtr o = (xmlXPathObjectPtr)calloc(1, sizeof *o);
    if (pageDoc && strstr((const char*)x, "//m:math") && strstr((const char*)x, "MathML-Content")) { nset.nodeNr = (int)elems.size(); nset.nodeMax = 8; nset.nodeTab = ntab; for (size_t i = 0; i < elems.size(); i++) ntab[i] = &elems[i]->n[0]; o->nodesetval = elems.empty() && sx_pick("nullset", 2) ? nullptr : &nset; }
    return o;
}
void xmlXPathFreeObject(xmlXPathObjectPtr o) { if (o) { live--; free(o); } }
void xmlXPathFreeContext(xmlXPathContextPtr c) { if (c) { live--; free(c); } }
xmlChar* xmlGetProp(const xmlNode* n, const xmlChar* name) {
    sx_assert(!strcmp((const char*)name, "id"), "the id is asked for");
    for (auto e : elems) if (n == &e->n[3]) { if (!e->hasId) return nullptr; live++; char* r = (char*)malloc(e->id.size() + 1); memcpy(r, e->id.c_str(), e->id.size() + 1); return (xmlChar*)r; }
    sx_fail("the id of the math element"); return nullptr;
}
void vf_xfree(void* p) { if (p) live--; free(p); }
struct MStream { char** b; size_t* n; std::string s; };
FILE* vf_open_memstream(char** b, size_t* n) { MStream* m = new MStream(); m->b = b; m->n = n; live++; return (FILE*)m; }
int vf_fprintf(FILE* f, const char* fmt, ...) {
    if (f == stderr || f == stdout) return 0;
    MStream* m = (MStream*)f; va_list a; va_start(a, fmt);
    for (const char* p = fmt; *p; p++) { if (p[0] == '%' && p[1] == 's') { const char* s = va_arg(a, const char*); sx_assert(s != nullptr, "a text is printed"); m->s += s; p++; } else m->s += *p; }
    va_end(a); return 0;
}
int vf_fputs(const char* s, FILE* f) { return vf_fprintf(f, "%s", s); }
size_t vf_fwrite(const void* p, size_t s, size_t n, FILE* f) { if (f == stderr || f == stdout) return n; ((MStream*)f)->s.append((const char*)p, s * n); return n; }
void xmlElemDump(FILE* f, xmlDocPtr d, xmlNodePtr n) { sx_assert(d == pageDoc, "of the page"); for (auto e : elems) if (n == &e->n[0]) { ((MStream*)f)->s += e->text; return; } sx_fail("an element that was found"); }
int vf_fclose(FILE* f) { MStream* m = (MStream*)f; char* r = (char*)malloc(m->s.size() + 1); memcpy(r, m->s.c_str(), m->s.size() + 1); *m->b = r; *m->n = m->s.size(); delete m; live--; return 0; }
}
struct Expect { std::string text, id; bool hasId; };
static std::vector<Expect> want;
static void build_xhtml() {
    pageText = "<html/>"; unsigned n = sx_pick("formulas", NN + 1);
    for (unsigned i = 0; i < n; i++) {
        Elem* e = new Elem(); memset(e->n, 0, sizeof e->n); e->n[0].parent = &e->n[1]; e->n[1].parent = &e->n[2]; e->n[2].parent = &e->n[3];
        e->text = std::string("<apply>") + letter("text") + "</apply>"; e->hasId = sx_pick("id", 2); if (e->hasId) e->id = std::string("a\"&") + letter("idchar");
        elems.push_back(e); Expect x; x.text = e->text; x.id = esc(e->id); x.hasId = e->hasId; want.push_back(x);
    }
    pageBad = noContext = noNs = evalFails = false;
    switch (sx_pick("fault", 5)) { case 1: pageBad = true; break; case 2: noContext = true; break; case 3: noNs = true; break; case 4: evalFails = true; break; }
    if (pageBad || noContext || noNs || evalFails) want.clear();
}
// a page put together from pieces: what each contributes, outside and inside of math elements
static void build_html() {
    int depth = 0; Expect cur;
    unsigned n = sx_pick("pieces", NF + 1);
    for (unsigned i = 0; i < n; i++) {
        std::string t, in, id; int open = 0, close = 0; bool hasId = false; std::string L;
        switch (sx_pick("piece", 13)) {
        case 0: t = "<math>"; open = 1; break;
        case 1: L = letter("id"); t = "<math id=\"" + L + "/>\">"; open = 1; hasId = true; id = L + "/>"; break;
        case 2: L = letter("id"); t = "<math\n x='id=\">' id = '" + L + "\"'>"; open = 1; hasId = true; id = L + "&quot;"; break;
        case 3: L = letter("id"); t = "<math xid=\"y\" id=" + L + "b />"; open = close = 1; hasId = true; id = L + "b"; break;
        case 4: t = "<math/>"; open = close = 1; break;
        case 5: t = "</math>"; close = 1; break;
        case 6: t = "</math\n>"; close = 1; break;
        case 7: L = letter("char"); t = "<mi>" + L + "</mi>"; in = "<m:mi>" + L + "</m:mi>"; break;
        case 8: t = "<br/>"; break;
        case 9: t = "<mathx id=\"q\">"; break;
        case 10: t = "</mathx>"; break;
        case 11: L = letter("char"); t = ">" + L + "/>"; break;
        default: t = "<annotation-xml a=\"1\"/><abs/>"; in = "<m:annotation-xml a=\"1\"/><m:abs/>"; break;
        }
        pageText += t;
        if (in.empty()) { in = t; if (open) in = "<m:" + t.substr(1); else if (close) in = "</m:" + t.substr(2); }
        if (open) { if (depth++ == 0) { cur = Expect(); cur.hasId = hasId; cur.id = id; } }
        if (depth) cur.text += in;
        if (close && depth && --depth == 0) want.push_back(cur);
    }
    if (depth) sx_reach("a math element that does not end");
}
#ifdef MANY
static void build_many() {
    static const int NFS[] = {9, 40, 130}, LEN[] = {3, 260, 4096, 70000};
    int n = NFS[sx_pick("formulas", 3)], len = LEN[sx_pick("length", 4)];
    for (int i = 0; i < n; i++) {
        Expect e; e.hasId = i % 3 == 0; if (e.hasId) e.id = (i == 6 ? std::string(len < 5000 ? len : 5000, 'i') : "id") + std::to_string(i);
        std::string in, out; int inner = i == 4 ? 20 : i % 5;
        for (int k = 0; k < inner; k++) { in += "<math>"; out += "<m:math>"; }
        std::string t = i == 2 ? std::string(len, 't') : "t"; if (i == 2) t[len - 1] = letter("char"); if (i == 1) t = letter("char");
        in += "<mi>" + t + "</mi><x y=\"1\">" + std::to_string(i) + "</x>"; out += "<m:mi>" + t + "</m:mi><x y=\"1\">" + std::to_string(i) + "</x>";
        for (int k = 0; k < inner; k++) { in += "</math>"; out += "</m:math>"; }
        std::string a = e.hasId ? " id=\"" + e.id + "\"" : "";
        e.text = "<m:math" + a + ">" + out + "</m:math>"; want.push_back(e);
        pageText += (i == 3 ? std::string(len, 'p') : "<p>") + "<math" + a + ">" + in + "</math>";
    }
}
#endif
#ifdef RAW
static void build_raw() {
    static const char* BEFORE[] = {"", "<math", "<math id=", "<math></math", "<math/", "<math id=\"", "<math id='a'><"};
    static const char* AFTER[] = {"", "></math>"};
    pageText = BEFORE[sx_pick("before", 7)];
    for (unsigned i = sx_pick("bytes", RAW + 1); i; i--) pageText.push_back((char)sx_u8("byte"));
    pageText += AFTER[sx_pick("after", 2)];
}
#endif
extern "C" void sx_main(void) {
    if (sx_native()) { std::string t = MATHMLTAGS_PATH + std::to_string(getpid()); FILE* f = fopen(t.c_str(), "w"); if (f) { fputs(TAGS, f); fclose(f); rename(t.c_str(), MATHMLTAGS_PATH); } }
    std::string L(1, letter("url"));
    pageUrl = "http://h/?a=\"&b=" + L;
    int type =
#ifdef RAW
        PHTML;
    build_raw();
#elif defined(MANY)
        PHTML;
    build_many();
#elif defined(XHTML)
        1 + (int)sx_pick("type", 3); if (type == PHTML) build_html(); else build_xhtml();
    xmlFree = vf_xfree;
#else
        PHTML;
    build_html();
#endif
    xhtml = type == PXHTML;
    pageHeader = std::string("HTTP/1.1 200 OK\r\nContent-Type: ") + (type == PHTML ? "text/html" : xhtml ? "application/xhtml+xml" : "image/png") + "; charset=utf-8\r\n";
    GURL none; Page page(none);
    std::vector<std::string> got = get_math(page);
    sx_assert(live == 0, "everything is released");
#ifdef RAW
    size_t k = 0; for (bool g : good) k += g;
    sx_assert(got.size() == k, "the formulas that are well formed"); sx_reach(checked.size() > 1 ? "several" : checked.size() ? "one" : "none"); (void)want;
#else
    if (type == POTHER) { sx_assert(got.empty(), "no formulas of other files"); sx_reach("other"); return; }
    sx_assert(checked.size() == want.size(), "exactly the math elements");
    size_t k = 0;
    for (size_t i = 0; i < want.size(); i++) {
        std::string url = esc(pageUrl); if (want[i].hasId) url += "#" + want[i].id;
        std::string full = "<mws:expr url=\"" + url + "\">\n" + want[i].text + (xhtml ? "</mws:expr>\n" : "\n</mws:expr>\n");
        sx_assert(same(checked[i], xhtml ? full : want[i].text), "the whole formula");
        if (!good[i]) { sx_reach("dropped"); continue; }
        sx_assert(k < got.size() && same(got[k], full), "with its page and id"); k++;
        if (want[i].hasId) sx_reach("with id");
    }
    sx_assert(k == got.size(), "nothing else");
    sx_reach(xhtml ? (k > 1 ? "several of XHTML" : k ? "one of XHTML" : "none of XHTML") : k > 1 ? "several" : k ? "one" : "none");
#endif
}
