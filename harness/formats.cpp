// P16: the answer formatters write exactly the answer set.
#include "cmml.hpp"
#include "memfs.hpp"
#include "jsonstub.hpp"
#include "xmlwstub.hpp"
#include "mws/types/MwsAnswset.hpp"
#include "mws/types/SchemaAnswset.hpp"
#include "mws/xmlparser/MwsXmlResponseFormatter.hpp"
#include "mws/xmlparser/MwsJsonResponseFormatter.hpp"
#include "mws/xmlparser/MwsIdsResponseFormatter.hpp"
#include "mws/xmlparser/SchemaJsonResponseFormatter.hpp"
#include "mws/xmlparser/SchemaXmlResponseFormatter.hpp"
using namespace mws; using namespace mws::types; using namespace mws::parser;
#ifndef NANSW
#define NANSW 2
#endif
static std::string text(int k) {      // one arbitrary byte inside fixed text; the empty text; a long text
    std::string s;
    if (k == 0) { s = "<a b=\"c\">&'"; unsigned char c = sx_u8("byte"); sx_assume(c != 0); s += (char)c; s += "\\/z"; }
    if (k == 2) s = std::string(40, 'q');
    return s;
}
#ifdef FAULTS
static std::string texts() { return text(2); }
#define NTOTAL 1
#else
static std::string texts() { return text(sx_pick("text", 2)); }
#define NTOTAL 3
#endif
static int g_kind;
// parses what CmmlToken::toString printed and compares it with the tree
struct Rd { const std::string& s; size_t p; bool ok; };
static bool at(Rd& r, char c) { return r.p < r.s.size() && r.s[r.p] == c; }
static void skip(Rd& r) { while (at(r, ' ') || at(r, '\n')) r.p++; }
static void want(Rd& r, char c) { if (at(r, c)) r.p++; else r.ok = false; }
static std::string until(Rd& r, const char* stop) {     // reads text, resolving references
    std::string out;
    while (r.ok && r.p < r.s.size() && !strchr(stop, r.s[r.p])) {
        char c = r.s[r.p++];
        if (c != '&') { out += c; continue; }
        std::string name;
        while (r.p < r.s.size() && r.s[r.p] != ';' && name.size() < 8) name += r.s[r.p++];
        want(r, ';');
        if (name == "amp" || name == "#38") out += '&'; else if (name == "lt" || name == "#60") out += '<'; else if (name == "gt" || name == "#62") out += '>';
        else if (name == "quot" || name == "#34") out += '"'; else if (name == "apos" || name == "#39") out += '\''; else r.ok = false;
    }
    return out;
}
static void parse(Rd& r, Model* m) {
    skip(r); want(r, '<');
    if (!r.ok || !same_bytes(until(r, " />"), m->tag)) { r.ok = false; return; }
    skip(r);
    int attrs = 0;
    while (r.ok && !at(r, '>') && !at(r, '/')) {
        std::string n = until(r, "= >"); want(r, '='); want(r, '"');
        std::string v = until(r, "\"<"); want(r, '"'); skip(r);
        if (n != "name" || !m->hasName || !same_bytes(v, m->name)) r.ok = false;
        attrs++;
    }
    if (attrs != (m->hasName ? 1 : 0)) r.ok = false;
    if (at(r, '/')) { r.p++; want(r, '>'); if (!m->text.empty() || !m->kids.empty()) r.ok = false; return; }
    want(r, '>');
    std::string t = until(r, "<"), u;
    if (m->kids.empty()) u = t;
    else for (char c : t) if (c != ' ' && c != '\n') u += c;
    if (!same_bytes(u, m->text)) { r.ok = false; return; }
    for (auto k : m->kids) { if (r.ok) parse(r, k); }
    if (!m->kids.empty()) skip(r);
    want(r, '<'); want(r, '/');
    if (r.ok && !same_bytes(until(r, ">"), m->tag)) r.ok = false;
    want(r, '>'); 
}
static bool prints(const std::string& s, Model* m) { Rd r = {s, 0, true}; parse(r, m); skip(r); return r.ok && r.p == s.size(); }
static bool xml_tree(XNode* n, Model* m) {
    if (!n || n->name != m->tag || !same_bytes(n->text, m->text) || n->kids.size() != m->kids.size()) return false;
    for (size_t i = 0; i < m->kids.size(); i++) if (!xml_tree(n->kids[i], m->kids[i])) return false;
    return true;
}
static Model* schema_tree() {
#ifdef MANY
    std::vector<Model*> nm; Model* t = model_of({2, 0, 0}, nm); t->tag = "apply"; nm[1]->tag = "csymbol"; nm[1]->text = "p<q"; nm[2]->tag = "ci"; nm[2]->text = "u"; return t;
#endif
    std::vector<Model*> ns; Model* m;
    static const char* const tags[] = {"apply", "csymbol", "ci", "mws:qvar"};
    switch (sx_pick("tree", 3)) { case 0: m = model_of({0}, ns); break; case 1: m = model_of({2, 0, 0}, ns); break; default: m = model_of({2, 1, 0, 0}, ns); }
    for (size_t i = 0; i < ns.size(); i++) ns[i]->tag = tags[i];
    // white space never reaches the text of a token
    unsigned char c = sx_u8("symbol"); sx_assume(c != 0); sx_assume(!is_space(c));
    ns.back()->text = std::string("u") + (char)c;
    if (ns.size() > 2) { ns[1]->text = "p<q"; ns[1]->hasName = true; unsigned char d = sx_u8("attribute"); sx_assume(d != 0); ns[1]->name = std::string("n\"") + (char)d; }
    return m;
}
static const Query::ResponseFormatter* const FMT[] = {RESPONSE_FORMATTER_MWS_XML, RESPONSE_FORMATTER_MWS_JSON, RESPONSE_FORMATTER_MWS_IDS, RESPONSE_FORMATTER_SCHEMA_JSON, RESPONSE_FORMATTER_SCHEMA_XML};
static const int TOTAL[] = {0, 7, 2147483647};
extern "C" void sx_main(void) {
    #ifdef FAULTS
    int f = sx_pick("format", 2) * 4;
#else
    int f = sx_pick("format", 5);
#endif
    const Query::ResponseFormatter* fmt = f == 0 ? &MwsXmlResponseFormatter::instance : f == 1 ? (const Query::ResponseFormatter*)&MwsJsonResponseFormatter::instance : f == 2 ? (const Query::ResponseFormatter*)&MwsIdsResponseFormatter::instance : f == 3 ? (const Query::ResponseFormatter*)&SchemaJsonResponseFormatter::instance : &SchemaXmlResponseFormatter::instance;
    bool xml = f == 0 || f == 4;
    { std::string type = fmt->getContentType(); sx_assert((type.find("xml") != std::string::npos) == xml && (type.find("json") != std::string::npos) == !xml, "the answer is labelled as what it is"); }
    GenericAnswer* ans; MwsAnswset* a = nullptr; SchemaAnswset* s = nullptr;
    std::vector<Model*> roots;
    int total = xml ? TOTAL[sx_pick("total", NTOTAL)] : (int)sx_u32("total");
    if (f < 3) {
        ans = a = new MwsAnswset();
        a->total = total; a->time = sx_u8("time");
#ifdef MANY
        static const int NS[] = {9, 10, 11, 30, 31, 100, 130}; static const int LS[] = {16, 128, 256, 1024, 4096, 5000};
        int nm = NS[sx_pick("many", 7)], kind = sx_pick("whatmany", 3), nq = kind == 0 ? nm : 2, na = f == 2 ? 0 : kind == 1 ? nm : 2;
        std::string pad = kind == 2 ? std::string(LS[sx_pick("length", 6)], 'p') : "";
        for (int i = 0; i < nq; i++) { a->qvarNames.push_back(pad + std::to_string(i)); a->qvarXpaths.push_back(pad + "/*[" + std::to_string(i) + "]"); }
        for (int i = 0; i < na; i++) { Answer* x = new Answer(); x->uri = pad + "u" + std::to_string(i); x->xpath = pad + "/x" + std::to_string(i); x->data = pad + "d" + std::to_string(i); if (i == na - 1) x->data += text(0); a->answers.push_back(x); }
        if (f == 2) for (int i = 0; i < nm; i++) a->ids.insert(i * 1000003u);
        sx_reach("many");
#else
        int nq = sx_pick("qvars", 3), na = f == 2 ? 0 : sx_pick("answers", NANSW + 1);
        for (int i = 0; i < nq; i++) { a->qvarNames.push_back(i == 0 ? text(0) : "y"); a->qvarXpaths.push_back(i == 0 ? "/*[1]" : "/*[2]/*[1]"); }
        for (int i = 0; i < na; i++) { Answer* x = new Answer(); x->uri = i == 0 ? texts() : "u2"; x->xpath = i == 0 ? text(0) : "/x"; x->data = i == 0 ? texts() : text(2); a->answers.push_back(x); }
        if (f == 2) for (int i = sx_pick("ids", 4); i; i--) a->ids.insert(sx_u32("id"));
#endif
    } else {
        ans = s = new SchemaAnswset();
        s->total = total;
#ifdef MANY
        int kind = sx_pick("whatmany", 2); static const int NS[] = {9, 10, 11, 30, 31, 100}; int n = kind ? NS[sx_pick("many", 6)] : 1;
#else
        int n = sx_pick("schemata", 3);
#endif
        for (int i = 0; i < n; i++) {
            ExprSchema e;
            if (i == 0) roots.push_back(schema_tree());
            else { std::vector<Model*> ns; Model* m = model_of({0}, ns); m->tag = "mws:qvar"; m->text = "x" + std::to_string(i - 1); roots.push_back(m); }
            e.root = build(roots.back());
#ifdef MANY
            e.coverage = i * 13 + 1;
#else
            e.coverage = xml ? (size_t)TOTAL[sx_pick("coverage", NTOTAL)] : (size_t)sx_u32("coverage");
#endif
#ifdef MANY
            if (i == 0 && kind == 0 && f == 3) { int m = NS[sx_pick("members", 6)]; for (int k = 0; k < m; k++) { e.formulae.push_back(k * 7919u); e.subst.push_back("s" + std::to_string(k)); } }
            else { e.formulae.push_back(i); e.subst.push_back("t" + std::to_string(i)); }
#else
            for (int k = f == 3 ? sx_pick("members", 3) : 1; k; k--) e.formulae.push_back(sx_u32("member"));
            for (int k = f == 3 ? sx_pick("substs", 3) : 0; k; k--) e.subst.push_back(k == 1 ? text(0) : "id7");
#endif
            s->schemata.push_back(e);
        }
    }
#ifdef FAULTS
    x_fail = sx_pick("failing", FAULTS);
#endif
    FILE* out = vf_fopen("answer", "w");
    SX_SHARE(1); int r = fmt->writeData(ans, out); SX_SHARE(0);
    vf_fclose(out);
    const std::vector<char>& got = mfs_find("answer")->data;
    if (xml) {
        sx_assert(x_live == 0, "the XML writer is released");
        if (x_failed) { sx_reach("failed"); sx_assert(r == -1, "a failure while writing the answer is reported"); return; }
        sx_assert(r >= 0, "writing succeeds when no call fails");
        sx_assert((size_t)r == got.size() && x_same(std::string(got.begin(), got.end()), x_written), "the rendered document is written once, and its size returned");
        XNode* doc = x_doc;
        sx_assert(doc->kids.size() == 1, "one root element");
        if (f == 0) {
            XNode* n = x_kid(doc, 0, "mws:answset");
            sx_assert(n && x_attr(n, "total", std::to_string(total)) && x_attr(n, "size", std::to_string(a->answers.size())), "total and size");
            sx_assert(n->kids.size() == a->answers.size() && n->text.empty(), "one element for every hit");
            for (size_t i = 0; i < a->answers.size(); i++) {
                XNode* h = x_kid(n, i, "mws:answ"); Answer* x = a->answers[i];
                sx_assert(h && x_attr(h, "uri", x->uri) && x_attr(h, "xpath", x->xpath), "document and position of the hit");
                sx_assert(h->kids.size() == a->qvarNames.size() + 1, "one element for every variable, and the data");
                for (size_t k = 0; k < a->qvarNames.size(); k++) { XNode* q = x_kid(h, k, "mws:substpair"); sx_assert(q && x_attr(q, "qvar", a->qvarNames[k]) && x_attr(q, "xpath", x->xpath + a->qvarXpaths[k]), "variable binding"); }
                XNode* d = x_kid(h, a->qvarNames.size(), "data");
                sx_assert(d && x_same(d->text, x->data), "data of the hit");
                if (i) sx_reach("two hits in XML");
            }
        } else {
            XNode* n = x_kid(doc, 0, "mws:schemata");
            sx_assert(n && x_attr(n, "total", std::to_string(total)) && x_attr(n, "size", std::to_string(s->schemata.size())), "total and size");
            sx_assert(n->kids.size() == s->schemata.size(), "one element for every schema");
            for (size_t i = 0; i < s->schemata.size(); i++) {
                XNode* h = x_kid(n, i, "mws:schema");
                sx_assert(h && x_attr(h, "coverage", std::to_string(s->schemata[i].coverage)) && h->kids.size() == 1, "coverage of the schema");
                XNode* m = x_kid(h, 0, "math");
                sx_assert(m && m->kids.size() == 1 && xml_tree(m->kids[0], roots[i]), "the tree of the schema");
                if (i) sx_reach("two schemata in XML");
            }
        }
        return;
    }
    JNode* d = j_rendered;
    sx_assert(d && r >= 0, "a JSON value was rendered");
    sx_assert((size_t)r == got.size() && x_same(std::string(got.begin(), got.end()), d->out), "the rendered value is written once, and its size returned");
    sx_assert(j_live == 0, "the JSON value is released");
    sx_assert(j_int(j_field(d, "total"), total), "total");
    if (f < 3) {
        JNode* q = j_field(d, "qvars");
        sx_assert(j_len(q, a->qvarNames.size()), "one entry for every variable");
        for (size_t k = 0; k < a->qvarNames.size(); k++) sx_assert(j_text(j_field(j_item(q, k), "name"), a->qvarNames[k]) && j_text(j_field(j_item(q, k), "xpath"), a->qvarXpaths[k]), "variable binding");
    }
    if (f == 1) {
        sx_assert(j_int(j_field(d, "time"), a->time), "time");
        JNode* h = j_field(d, "hits");
        sx_assert(j_len(h, a->answers.size()), "one entry for every hit");
        for (size_t i = 0; i < a->answers.size(); i++) {
            Answer* x = a->answers[i]; JNode* e = j_item(h, i); JNode* m = j_field(e, "math_ids");
            sx_assert(j_len(m, 1) && j_text(j_field(j_item(m, 0), "url"), x->uri) && j_text(j_field(j_item(m, 0), "xpath"), x->xpath), "document and position of the hit");
            sx_assert(j_text(j_field(e, "xhtml"), x->data), "data of the hit");
            if (i) sx_reach("two hits in JSON");
        }
    } else if (f == 2) {
        JNode* ids = j_field(d, "ids");
        sx_assert(j_len(ids, a->ids.size()) && j_int(j_field(d, "size"), a->ids.size()), "one entry for every formula");
        size_t k = 0;
        for (FormulaId id : a->ids) sx_assert(j_int(j_item(ids, k++), id), "formula id");
        if (k > 1) sx_reach("several formula ids");
    } else {
        JNode* l = j_field(d, "schemata");
        sx_assert(j_len(l, s->schemata.size()) && j_int(j_field(d, "size"), s->schemata.size()), "one entry for every schema");
        for (size_t i = 0; i < s->schemata.size(); i++) {
            ExprSchema& e = s->schemata[i]; JNode* n = j_item(l, i);
            sx_assert(j_int(j_field(n, "coverage"), e.coverage), "coverage of the schema");
            JNode* m = j_field(n, "formulae"), *u = j_field(n, "subst"), *c = j_field(n, "cmmlSchema");
            sx_assert(j_len(m, e.formulae.size()) && j_len(u, e.subst.size()), "members and substitutions");
            for (size_t k = 0; k < e.formulae.size(); k++) sx_assert(j_int(j_item(m, k), e.formulae[k]), "member of the schema");
            for (size_t k = 0; k < e.subst.size(); k++) sx_assert(j_text(j_item(u, k), e.subst[k]), "substitution of the schema");
            sx_assert(c && c->kind == 's' && prints(c->s, roots[i]), "reading the printed schema gives back the tree");
            if (i) sx_reach("two schemata in JSON");
        }
    }
}
