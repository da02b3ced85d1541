// P29: from a document to its harvest (docs2harvest): the document tree is symbolic, libxml2 is a stand-in with a small XPath evaluator.
#include "memfs.hpp"
#include <libxml/tree.h>
#include <libxml/parser.h>
#include <libxml/HTMLparser.h>
#include <libxml/xpath.h>
#include <map>
#include <stdexcept>
#include "crawler/parser/MathParser.hpp"
#include "crawler/parser/XmlParser.hpp"
#ifndef NP
#define NP 2
#endif
using namespace crawler::parser;
typedef std::string S;
typedef std::vector<std::pair<S, S>> Attrs;
struct Nd { xmlNode n; S prefix, name, text; Attrs at; Nd* up; std::vector<Nd*> kids; xmlNs ns; };
static Nd *docNode, *root; static std::vector<Nd*> all; static std::vector<xmlAttr*> attrNodes;
static long live; static bool asXml, asHtml; static S fileText;
static Nd* nd(void* p) { return (Nd*)p; }
static Nd* make(Nd* up, const S& prefix, const S& name, xmlElementType t = XML_ELEMENT_NODE) {
    Nd* d = new Nd(); memset(&d->n, 0, sizeof d->n);
    d->prefix = prefix; d->name = name; d->up = up; d->n.type = t; all.push_back(d);
    if (up) { if (!up->kids.empty()) { up->kids.back()->n.next = &d->n; d->n.prev = &up->kids.back()->n; } else up->n.children = &d->n; up->n.last = &d->n; up->kids.push_back(d); d->n.parent = &up->n; }
    return d;
}
static Nd* text(Nd* up, const S& s) { Nd* d = make(up, "", "text", XML_TEXT_NODE); d->text = s; return d; }
static void finish() { // pointers into the strings, once these stay where they are
    for (auto d : all) {
        d->n.name = (const xmlChar*)d->name.c_str(); d->n.doc = (xmlDoc*)docNode;
        if (d->n.type == XML_TEXT_NODE) d->n.content = (xmlChar*)d->text.c_str();
        memset(&d->ns, 0, sizeof d->ns);
        if (!d->prefix.empty()) { d->ns.prefix = (const xmlChar*)d->prefix.c_str(); d->n.ns = &d->ns; }
    }
}
static S esc(const S& s) { S r; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else if (c == '\r') r += "&#13;"; else r.push_back(c); } return r; }
static const S* attr(Nd* d, const char* k) { for (auto& a : d->at) if (a.first == k) return &a.second; return nullptr; }
// what libxml2 writes for a node; clean: as the harvest wants it
static S dump(Nd* d, bool clean) {
    if (d->n.type == XML_TEXT_NODE) return esc(d->text);
    S nm = (clean || !d->n.ns ? S() : d->prefix + ":") + d->name, r = "<" + nm;
    for (auto& a : d->at) if (!clean || (a.first != "id" && a.first != "xref")) r += " " + a.first + "=\"" + esc(a.second) + "\"";
    if (d->kids.empty()) return r + "/>";
    r += ">"; for (auto k : d->kids) r += dump(k, clean);
    return r + "</" + nm + ">";
}
// -- XPath: steps of [axis::]test[predicate]...
typedef std::vector<Nd*> Set;
static void add(Set& s, Nd* d) { for (auto x : s) if (x == d) return; s.push_back(d); }
static void below(Set& s, Nd* d) { for (auto k : d->kids) { add(s, k); below(s, k); } }
static bool eat(const char*& p, const char* w) { size_t n = strlen(w); if (strncmp(p, w, n)) return false; p += n; return true; }
static S word(const char*& p) { S r; while ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z') || *p == '-' || *p == '_' || (*p >= '0' && *p <= '9')) r.push_back(*p++); return r; }
static S quoted(const char*& p) { char q = *p++; S r; sx_assert(q == '\'' || q == '"', "harness: XPath literal"); while (*p && *p != q) r.push_back(*p++); p++; return r; }
static bool xpath(const char* p, Nd* ctx, Set& out) {
    Set cur; bool deep = false;
    if (*p == '/') { cur.push_back(docNode); p++; if (*p == '/') { deep = true; p++; } else if (!*p) { out = cur; return true; } }
    else cur.push_back(ctx ? ctx : docNode);
    for (;;) {
        Set next;
        int axis = 0; // child, descendant, self or descendant, self
        if (eat(p, "descendant-or-self::")) axis = 2; else if (eat(p, "descendant::")) axis = 1; else if (eat(p, "child::")) axis = 0; else if (eat(p, "self::")) axis = 3;
        bool any = false, isText = false; S name;
        if (eat(p, "node()")) any = true; else if (eat(p, "text()")) isText = true; else if (eat(p, "*")) {} else if (*p == '.') { p++; axis = 3; any = true; } else { name = word(p); if (name.empty()) return false; if (*p == ':') { p++; name = word(p); } }
        struct Pred { int kind; S a, v; }; std::vector<Pred> preds;
        while (*p == '[') {
            p++; Pred q; q.kind = 0;
            if (eat(p, "local-name()=") || eat(p, "local-name() = ")) { q.kind = 1; q.v = quoted(p); }
            else if (eat(p, "name()=") || eat(p, "name() = ")) { q.kind = 2; q.v = quoted(p); }
            else if (eat(p, "@")) { q.a = word(p); q.kind = 3; if (eat(p, "=") || eat(p, " = ")) { q.kind = 4; q.v = quoted(p); } }
            else return false;
            if (*p++ != ']') return false;
            preds.push_back(q);
        }
        for (auto c : cur) {
            Set cand;
            Set from; from.push_back(c); if (deep) below(from, c);
            for (auto f : from) {
                if (axis >= 2) add(cand, f);
                if (axis == 0) for (auto k : f->kids) add(cand, k);
                if (axis == 1 || axis == 2) below(cand, f);
            }
            for (auto d : cand) {
                bool el = d->n.type == XML_ELEMENT_NODE;
                if (!any && (isText ? d->n.type != XML_TEXT_NODE : !el || (!name.empty() && name != d->name))) continue;
                bool ok = true;
                for (auto& q : preds) {
                    const S* v = q.kind >= 3 ? attr(d, q.a.c_str()) : nullptr;
                    if (q.kind == 1) ok = ok && d->name == q.v; else if (q.kind == 2) ok = ok && (d->prefix.empty() ? S() : d->prefix + ":") + d->name == q.v;
                    else ok = ok && v && (q.kind == 3 || *v == q.v);
                }
                if (ok) add(next, d);
            }
        }
        cur = Set(); for (auto d : all) for (auto x : next) if (x == d) cur.push_back(d); // document order
        deep = false;
        if (*p == '/') { p++; if (*p == '/') { p++; deep = true; } } else break;
    }
    if (*p) return false;
    out = cur; return true;
}
struct Stream { S data; char** buf; size_t* size; };
extern "C" {
FILE* vf_open_memstream(char** b, size_t* n) { Stream* s = new Stream(); s->buf = b; s->size = n; *b = nullptr; *n = 0; live++; return (FILE*)s; }
static void sync(Stream* s) { *s->buf = (char*)realloc(*s->buf, s->data.size() + 1); memcpy(*s->buf, s->data.c_str(), s->data.size() + 1); *s->size = s->data.size(); }
int vf_mfflush(FILE* f) { sync((Stream*)f); return 0; }
int vf_mfclose(FILE* f) { Stream* s = (Stream*)f; sync(s); delete s; live--; return 0; }
static xmlDocPtr doc() { live++; return (xmlDocPtr)docNode; }
xmlDocPtr xmlReadMemory(const char* b, int n, const char*, const char*, int) { sx_assert(S(b, n) == fileText, "the file is parsed"); return asXml ? doc() : nullptr; }
htmlParserCtxtPtr htmlNewParserCtxt() { live++; return (htmlParserCtxtPtr)malloc(1); }
xmlDocPtr htmlCtxtReadMemory(htmlParserCtxtPtr c, const char* b, int n, const char*, const char*, int o) { sx_assert(c && S(b, n) == fileText && !asXml, "the file is parsed as HTML if it is not XML"); sx_assert(o & HTML_PARSE_RECOVER, "HTML is read leniently"); return asHtml ? doc() : nullptr; }
void htmlFreeParserCtxt(htmlParserCtxtPtr c) { live--; free(c); }
void xmlFreeDoc(xmlDocPtr d) { sx_assert((void*)d == docNode, "the document is released"); live--; }
void xmlCleanupParser() {}
xmlChar* xmlEncodeSpecialChars(const xmlDoc* d, const xmlChar* s) { S r = esc((const char*)s); xmlChar* p = (xmlChar*)malloc(r.size() + 1); memcpy(p, r.c_str(), r.size() + 1); live++; return p; }
static void vf_xfree(void* p) { if (p) live--; free(p); }
xmlFreeFunc xmlFree = vf_xfree;
xmlOutputBufferPtr xmlOutputBufferCreateFile(FILE* f, xmlCharEncodingHandlerPtr e) { sx_assert(!e, "no conversion"); live++; xmlOutputBufferPtr o = (xmlOutputBufferPtr)calloc(1, sizeof *o); o->context = f; return o; }
void xmlNodeDumpOutput(xmlOutputBufferPtr o, xmlDocPtr d, xmlNodePtr n, int level, int format, const char*) { sx_assert((void*)d == docNode && !format && !level, "written as it is"); ((Stream*)o->context)->data += dump(nd(n), false); }
int xmlOutputBufferClose(xmlOutputBufferPtr o) { live--; free(o); return 0; }
xmlXPathContextPtr xmlXPathNewContext(xmlDocPtr d) { sx_assert((void*)d == docNode, "the document is searched"); live++; xmlXPathContextPtr c = (xmlXPathContextPtr)calloc(1, sizeof *c); c->doc = d; return c; }
int xmlXPathSetContextNode(xmlNodePtr n, xmlXPathContextPtr c) { c->node = n; return 0; }
xmlXPathObjectPtr xmlXPathEval(const xmlChar* x, xmlXPathContextPtr c) {
    if (!strcmp((const char*)x, "][")) return nullptr; // not an XPath
    xmlXPathObjectPtr o = (xmlXPathObjectPtr)calloc(1, sizeof *o); live++;
    if (!strcmp((const char*)x, "string(/)")) { o->type = XPATH_STRING; return o; }
    Set r; sx_assert(xpath((const char*)x, nd(c->node), r), "harness: XPath of a supported form");
    o->type = XPATH_NODESET;
#ifdef MANY
    static int noSet = -1; if (r.empty() && noSet < 0) noSet = sx_pick("emptyset", 2);
    if (r.empty() && noSet) return o;
#else
    if (r.empty() && sx_pick("emptyset", 2)) return o; // an empty result may come without a set
#endif
    o->nodesetval = (xmlNodeSetPtr)calloc(1, sizeof(xmlNodeSet)); o->nodesetval->nodeNr = r.size();
    o->nodesetval->nodeTab = (xmlNodePtr*)calloc(r.size() + 1, sizeof(xmlNodePtr));
    for (size_t i = 0; i < r.size(); i++) o->nodesetval->nodeTab[i] = &r[i]->n;
    return o;
}
xmlXPathObjectPtr xmlXPathEvalExpression(const xmlChar* x, xmlXPathContextPtr c) { return xmlXPathEval(x, c); }
xmlXPathObjectPtr xmlXPathNodeEval(xmlNodePtr n, const xmlChar* x, xmlXPathContextPtr c) { c->node = n; return xmlXPathEval(x, c); }
void xmlXPathFreeObject(xmlXPathObjectPtr o) { if (!o) return; if (o->nodesetval) { free(o->nodesetval->nodeTab); free(o->nodesetval); } free(o); live--; }
void xmlXPathFreeContext(xmlXPathContextPtr c) { if (c) { live--; free(c); } }
xmlChar* xmlGetProp(const xmlNode* n, const xmlChar* k) { const S* v = n->type == XML_ELEMENT_NODE ? attr(nd((void*)n), (const char*)k) : nullptr; if (!v) return nullptr; live++; char* r = (char*)malloc(v->size() + 1); memcpy(r, v->c_str(), v->size() + 1); return (xmlChar*)r; }
xmlChar* xmlGetNoNsProp(const xmlNode* n, const xmlChar* k) { return xmlGetProp(n, k); }
int xmlUnsetProp(xmlNodePtr n, const xmlChar* k) {
    if (n->type != XML_ELEMENT_NODE) return -1;
    Attrs& a = nd(n)->at; for (size_t i = 0; i < a.size(); i++) if (a[i].first == (const char*)k) { a.erase(a.begin() + i); return 0; }
    return -1;
}
void xmlSetNs(xmlNodePtr n, xmlNsPtr ns) { if (n->type == XML_ELEMENT_NODE) n->ns = ns; }
}
static S number(unsigned k) { S r; if (k >= 10) r = number(k / 10); r.push_back('0' + k % 10); return r; }
// one place of the document (or its name) has an arbitrary character, the others a letter
static const char* focus;
static S sym(const char* nm) { if (strcmp(nm, focus)) return "e"; S r(1, (char)sx_u8(nm)); sx_assume(r[0] != 0); return r; }
static void content(Nd* ann) {
    switch (sx_pick("content", NP > 2 ? 2 : 3)) {
    case 0: break;
    case 1: { Nd* c = make(ann, "m", "ci"); c->at.push_back(std::make_pair(S("xref"), S("r"))); c->at.push_back(std::make_pair(S("type"), sym("type"))); text(c, sym("name")); break; }
    default: {
        text(ann, " ");
        Nd* a = make(ann, "m", "apply"); a->at.push_back(std::make_pair(S("id"), S("i")));
        Nd* p = make(a, "", "plus"); p->at.push_back(std::make_pair(S("id"), S("j"))); p->at.push_back(std::make_pair(S("xref"), S("k")));
        Nd* c = make(a, "m", "cn"); text(c, "1"); Nd* s = make(c, "m", "sep"); s->at.push_back(std::make_pair(S("xref"), S("l"))); text(c, "2");
        make(ann, "", "ci");
    }
    }
}
static bool anyMath;
static void math(Nd* up) {
    Nd* m = make(up, up->name == "p" ? "m" : "", "math");
    switch (sx_pick("id", 3)) { case 0: break; case 1: m->at.push_back(std::make_pair(S("id"), S("q") + sym("idchar"))); break; default: m->at.push_back(std::make_pair(S("id"), S("fix"))); }
    anyMath = true;
    Nd* s = make(m, "", "semantics");
    text(make(s, "", "mi"), "z");
    Nd* o = make(s, "", "annotation-xml"); o->at.push_back(std::make_pair(S("encoding"), S("MathML-Presentation"))); make(o, "", "mrow");
    Nd* a = make(s, "m", "annotation-xml"); a->at.push_back(std::make_pair(S("encoding"), S("MathML-Content")));
    content(a);
}
static void piece(Nd* up) {
    switch (sx_pick("piece", 4)) {
    case 0: { S t = sym("char"); text(up, "a  b" + t); break; }
    case 1: math(up); break;
    case 2: { Nd* p = make(up, "", "p"); text(p, "c"); math(p); text(p, "\n d"); break; }
    default: { Nd* p = make(up, "", "p"); text(p, "<&>"); }
    }
}
#ifdef MANY
static void manyPiece(Nd* up, unsigned i, unsigned n) { // a paragraph with a formula
    Nd* p = make(up, "", "p"); S num = number(i + 1);
    if (i % 5 == 0) text(p, "word" + num + " "); else if (i == 3) { S t; for (int k = 0; k < 900; k++) { t += "t" + number(k); t += k % 3 ? " " : "\n\t"; } text(p, t); }
    Nd* m = make(p, i % 2 ? "m" : "", "math");
    if (i % 6 != 4) m->at.push_back(std::make_pair(S("id"), i % 7 == 5 ? S("same") : i == 8 ? S(3000, 'i') : "q" + num + (i == n - 1 ? sym("idchar") : S())));
    Nd* s = make(m, "", "semantics"); text(make(s, "", "mi"), "z" + num);
    Nd* o = make(s, "", "annotation-xml"); o->at.push_back(std::make_pair(S("encoding"), S("MathML-Presentation"))); make(o, "", "mrow");
    Nd* a = make(s, "m", "annotation-xml"); a->at.push_back(std::make_pair(S("encoding"), S("MathML-Content")));
    if (i % 11 == 9) return;
    Nd* at = a; unsigned depth = i == 2 ? 70 : i % 3;
    for (unsigned k = 0; k < depth; k++) { at = make(at, "m", "apply"); at->at.push_back(std::make_pair(S("id"), "a" + number(k))); make(at, "", "plus"); }
    unsigned args = i == 6 ? 40 : 2;
    if (!depth) args = 1;
    for (unsigned k = 0; k < args; k++) { Nd* c = make(at, "m", "ci"); c->at.push_back(std::make_pair(S("xref"), S("r") + number(k))); c->at.push_back(std::make_pair(S("type"), S("real"))); text(c, i == 6 && k == 20 ? S(5000, 'v') : "v" + num + (i == n - 1 ? sym("name") : S())); }
    if (i % 4 == 1) text(up, " between ");
}
#endif
typedef std::map<S, unsigned> Ids;
static void words(S& out, const S& s) { // separated by single spaces
    bool in = false;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if ((c == ' ') | ((c >= 9) & (c <= 13))) { in = false; continue; }
        if (!in && !out.empty()) out.push_back(' ');
        in = true; out.push_back(c);
    }
}
static unsigned number(Ids* ids, const S& id) { auto f = ids->find(id); if (f != ids->end()) return f->second; unsigned k = ids->size() + 1; (*ids)[id] = k; return k; }
static void textOf(Nd* d, S& out, Ids* ids) {
    for (auto k : d->kids) {
        if (k->n.type == XML_TEXT_NODE) words(out, k->text);
        else if (k->name == "math") { const S* id = attr(k, "id"); if (id) words(out, "math" + (ids ? number(number(ids, *id)) : *id)); }
        else textOf(k, out, ids);
    }
}
static const char* const PATHS[] = {"/", "//p", "//*[local-name()='title']", "//none", "//p/text()", "string(/)", "]["};
static S textAt(int which, Ids* ids) { S r; Set s; if (which < 5 && xpath(PATHS[which], nullptr, s) && !s.empty()) textOf(s[0], r, ids); return r; }
extern "C" void sx_main(void) {
    xmlFree = vf_xfree;
    #ifdef MANY
    anyMath = true;
#endif
    static const char* const F[] = {"title", "char", "name", "type", "idchar", "path"};
#ifdef MANY
    focus = F[sx_pick("focus", 2) * 2 + 2]; int reading = sx_pick("html", 2); // XML or HTML
#elif defined(SEVERAL)
    focus = F[4]; int reading = 0; // XML
#else
    focus = F[sx_pick("focus", 6)];
    int reading = sx_pick("reading", 4);
#endif
     // XML, HTML, neither, no such file
    asXml = reading == 0; asHtml = reading < 2; bool missing = reading == 3;
    docNode = make(nullptr, "", "doc", XML_DOCUMENT_NODE);
    root = make(docNode, "", "html");
    text(make(make(root, "", "head"), "", "title"), "T " + sym("title"));
    Nd* body = make(root, "", "body");
#ifdef MANY
    static const unsigned NS[] = {9, 24}; unsigned many = NS[sx_pick("many", 2)]; size_t n = 0;
    for (unsigned i = 0; i < many; i++) manyPiece(body, i, many);
#elif defined(SEVERAL)
    size_t n = NP;
#else
    size_t n = reading ? 1 : sx_pick("pieces", NP + 1);
#endif
    for (size_t i = 0; i < n; i++) piece(body);
    finish();
    HarvesterConfiguration cfg;
    sx_assert(cfg.shouldSaveData && cfg.textWithMathXpath == "/" && cfg.documentIdXpath.empty() && cfg.metadataItems.empty(), "unless configured otherwise, the record of a document is kept: its name and its whole text");
    cfg.shouldSaveData = sx_pick("data", 2);
    cfg.data_id = "7";
    sx_assert(cfg.textWithMathXpath == "/", "all text is saved by default");
    S path = "d" + sym("path");
    int textPath = 0, idPath = -1, meta = -1;
#ifdef MANY
    if (cfg.shouldSaveData && sx_pick("configured", 2)) { idPath = 2; meta = 4; }
#elif defined(SEVERAL)
    if (cfg.shouldSaveData && sx_pick("textpath", 2)) textPath = 1;
#else
    switch (sx_pick("configuration", reading ? 1 : 3)) {
    case 0: break;
    case 1: if (cfg.shouldSaveData) textPath = sx_pick("textpath", 7); break;
    default: idPath = 1 + sx_pick("idpath", 3); if (cfg.shouldSaveData) { meta = sx_pick("meta", 7); }
    }
#endif
    if (textPath) cfg.textWithMathXpath = PATHS[textPath];
    if (idPath >= 0) cfg.documentIdXpath = PATHS[idPath];
    if (meta >= 0) { HarvesterConfiguration::MetadataItem it; it.name = "author"; it.xpath = PATHS[meta]; cfg.metadataItems.push_back(it); it.name = "title"; it.xpath = PATHS[2]; cfg.metadataItems.push_back(it); }
    // the oracle, before the tree is cleaned
    Ids ids; S id = idPath >= 0 ? textAt(idPath, nullptr) : path, data, txt; std::vector<S> exprs;
    if (cfg.shouldSaveData) {
        txt = textAt(textPath, &ids);
        data = "<mws:data mws:data_id=\"7\">\n<id>" + esc(id) + "</id>\n<text>" + esc(txt) + "</text>\n<metadata>\n";
        if (meta >= 0) data += "<author>" + esc(textAt(meta, nullptr)) + "</author>\n<title>" + esc(textAt(2, nullptr)) + "</title>\n";
        data += "</metadata>\n";
    }
    Set ms; xpath("//*[local-name()='math']", nullptr, ms);
    for (auto m : ms) {
        const S* mid = attr(m, "id"); Nd* ann = m->kids[0]->kids[2]; Nd* c = nullptr;
        for (auto k : ann->kids) if (!c && k->n.type == XML_ELEMENT_NODE) c = k;
        if (!mid || !c) { sx_reach(mid ? "without content" : "without id"); continue; }
        if (cfg.shouldSaveData) { S k = number(number(&ids, *mid)); data += "<math local_id=\"" + k + "\">" + esc(dump(m, false)) + "</math>\n"; exprs.push_back("<mws:expr url=\"" + k + "\" mws:data_id=\"7\">" + dump(c, true) + "</mws:expr>\n"); }
        else exprs.push_back("<mws:expr url=\"" + esc(id + "#" + *mid) + "\">" + dump(c, true) + "</mws:expr>\n");
    }
    if (cfg.shouldSaveData) data += "</mws:data>\n";
    fileText = "<x/>";
    if (!missing) { MFile* f = mfs_make(path.c_str()); f->data.assign(fileText.begin(), fileText.end()); }
    bool threw = false; Harvest h;
    try { h = createHarvestFromDocument(path, cfg); } catch (std::runtime_error&) { threw = true; }
    sx_assert(threw == (missing || !asHtml), "a document that cannot be read is reported, and no other");
    sx_assert(live == 0 && mfs_open == 0, "everything is released");
    if (threw) { sx_reach("refused"); return; }
    sx_assert(h.contentMathElements.size() == exprs.size(), "one expression for each formula with an id and content");
    if (exprs.size() > 16) sx_reach("many formulas");
    for (size_t i = 0; i < exprs.size() && i < h.contentMathElements.size(); i++) {
        const S& g = h.contentMathElements[i]; bool eq = g.size() == exprs[i].size();
        for (size_t k = 0; k < g.size() && k < exprs[i].size(); k++) eq = eq & (g[k] == exprs[i][k]);
        sx_assert(eq, "the expression is the content of the formula, cleaned, with its address");
    }
    bool eq = h.dataElement.size() == data.size();
    for (size_t k = 0; k < data.size() && k < h.dataElement.size(); k++) eq = eq & (h.dataElement[k] == data[k]);
    sx_assert(eq, "the data of the document");
    sx_observe("size", (long)h.dataElement.size()); sx_observe("exprs", (long)exprs.size());
    if (exprs.size() > 1) sx_reach("several"); if (exprs.size() == 1) sx_reach("one"); if (cfg.shouldSaveData && !exprs.empty() && textPath) sx_reach("another text");
}
