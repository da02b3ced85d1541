// P17: schemata of a set of formulas, through the schema query handler.
#include "cmml.hpp"
#include "mws/types/Query.hpp"
#include "mws/types/SchemaAnswset.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
using namespace mws; using namespace mws::types;
#ifndef NF
#define NF 2
#endif
#ifndef N1
#define N1 4
#endif
#ifndef N2
#define N2 3
#endif
#ifndef ARY
#define ARY 2
#endif
#ifndef LAB
#define LAB 2
#endif
static const char* const TAGS[] = {"apply", "ci", "mtext"};
#ifndef NSYM
#define NSYM 2
#endif
static void label(std::vector<Model*>& ns, int sym) {
    for (size_t i = 0; i < ns.size(); i++) {
        Model* m = ns[i];
        int k = m->kids.empty() ? 1 : sx_pick("tag", LAB);
        m->tag = TAGS[k];
        if (k != 1) continue;
        if (sym-- <= 0) { m->text = std::string(1, "abababababab"[i]); continue; }
        uint8_t c = sx_u8("text"); sx_assume(!is_space(c)); m->text = std::string(1, (char)c);
    }
}
static uint32_t depth_of(Model* m) { uint32_t d = 0; for (auto k : m->kids) { uint32_t e = depth_of(k) + 1; if (e > d) d = e; } return d; }
static bool cut(Model* m, uint32_t level, uint32_t cutoff, bool first) { return level >= cutoff && !(first && level > 0); }
// the reduced trees are equal
static bool eq_cut(Model* a, uint32_t ca, Model* b, uint32_t cb, uint32_t level, bool first) {
    bool x = cut(a, level, ca, first), y = cut(b, level, cb, first);
    if (x || y) return x && y;
    if (a->kids.size() != b->kids.size() || a->tag != b->tag) return false;
    bool eq = a->tag == "mtext" || same_bytes(a->text, b->text);
    for (size_t i = 0; i < a->kids.size(); i++) eq = eq & eq_cut(a->kids[i], ca, b->kids[i], cb, level + 1, i == 0 && a->tag == "apply");
    return eq;
}
// t is the schema of m
static bool is_schema(const CmmlToken* t, Model* m, uint32_t level, uint32_t cutoff, bool first, std::vector<std::string>& vars) {
    if (cut(m, level, cutoff, first)) {
        for (auto& v : vars) if (v == t->getTextContent()) return false;
        vars.push_back(t->getTextContent());
        return t->getTag() == QVAR_TAG && t->getChildNodes().empty() && !t->getTextContent().empty();
    }
    if (t->getTag() != m->tag || t->getChildNodes().size() != m->kids.size()) return false;
    bool eq = m->tag == "mtext" || same_bytes(t->getTextContent(), m->text);
    size_t i = 0;
    for (auto k : t->getChildNodes()) { eq = eq & is_schema(k, m->kids[i], level + 1, cutoff, i == 0 && m->tag == "apply", vars); i++; }
    return eq;
}
extern "C" void sx_main(void) {
    Query q;
    std::vector<Model*> ms;
#ifdef REFUSED
    // one formula that cannot be encoded: too many arguments
    size_t bad = sx_pick("refused", NF + 1);
#else
    size_t bad = ~0ul;
#endif
#ifdef HUGE_
    // groups of these sizes, in every order of two, and a formula with an arbitrary symbol
    static const unsigned SIZES[] = {2, 257, 256, 70}; std::vector<int> kind; unsigned first = sx_pick("first", 4);
    uint8_t sym = sx_u8("text"); sx_assume((sym >= 'a') & (sym <= 'f'));
    for (unsigned k = 0; k < 4; k++) for (unsigned c = 0; c < SIZES[(k + first) % 4]; c++) kind.push_back((k + first) % 4);
    kind.insert(kind.begin() + kind.size() / 2, (int)sx_concretize(sym) - 'a');
    for (int k : kind) {
        Model* m = new_model(nullptr); m->tag = "apply";
        for (int j = 0; j < 2; j++) { Model* a = new_model(m); a->tag = "ci"; a->text = std::string(1, j ? 'x' : (char)('a' + k)); a->tok = nullptr; }
        q.tokens.push_back(build(m)); ms.push_back(m);
    }
    static const unsigned LIM[] = {0, 1, 2, 3}; q.attrResultMaxSize = LIM[sx_pick("limit", 4)];
    q.cutoff_mode = 'A'; q.max_depth = 1;
#elif defined(MANY)
    unsigned form = sx_pick("form", 3); uint8_t sym = sx_u8("text"); sx_assume((sym >= 'a') & (sym <= 'g'));
    for (int i = 0; i < NF; i++) {
        std::vector<Model*> ns; Model* m = new_model(nullptr); m->tag = "apply"; ns.push_back(m);
        auto kid = [&](Model* p, const char* tag, std::string text) { Model* k = new_model(p); k->tag = tag; k->text = text; ns.push_back(k); return k; };
        if (form == 0) {        // many formulas
            kid(m, "ci", std::string(1, i == 11 ? (char)sym : (char)('a' + i * i % 7))); kid(m, "ci", "x" + std::to_string(i));
            Model* a = kid(m, "apply", ""); kid(a, "ci", std::string(1, (char)('a' + i % 4))); kid(a, "ci", std::string(1, (char)('m' + i % 3)));
        } else if (form == 1) { // deep ones, which differ at the bottom or in depth
            kid(m, "ci", "f"); Model* a = m;
            for (int d = 0; d < 20 * (1 + i % 3); d++) { a = kid(a, "apply", ""); kid(a, "ci", "f"); }
            kid(a, "ci", std::string(1, i == 5 ? (char)sym : (char)('a' + i % 5)));
        } else {                // wide ones, which differ in the last argument or the number
            kid(m, "ci", "f"); for (int d = 0; d < 40 + i % 2; d++) kid(m, "ci", d % 2 ? "x" : "y");
            Model* a = kid(m, "apply", ""); kid(a, "ci", std::string(1, (char)('a' + i % 3))); kid(a, "ci", std::string(1, i == 4 ? (char)sym : 'a'));
        }
        CmmlToken* t = build(m); size_t n = 0;
        for (auto x : ns) x->tok->addAttribute("xref", "id" + std::to_string(n++));
        q.tokens.push_back(t); ms.push_back(m);
    }
    static const unsigned LIM[] = {0, 1, 3, 7, 100}; q.attrResultMaxSize = LIM[sx_pick("limit", 5)];
    static const int DEP[] = {0, 1, 2, 3, 20, 22, 61, 255}; q.cutoff_mode = 'A'; q.max_depth = DEP[sx_pick("depth", 8)];
#else
    for (int i = 0; i < NF; i++) {
        if (bad == ms.size()) { CmmlToken* t = CmmlToken::newRoot(); t->setTag("apply"); for (int k = 0; k < 300; k++) t->newChildNode()->setTag("ci"); q.tokens.push_back(t); ms.push_back(nullptr); }
        auto sh = shapes(i == 0 ? N1 : N2, ARY);
        std::vector<Model*> ns;
        Model* m = model_of(sh[sx_pick("shape", sh.size())], ns);
        label(ns, i ? NSYM : 0);
        CmmlToken* t = build(m);
        size_t n = 0;
        for (auto x : ns) { x->tok->addAttribute("xref", "id" + std::to_string(n++)); }
        q.tokens.push_back(t); ms.push_back(m);
    }
    q.attrResultMaxSize = sx_pick("limit", NF + 1);
#ifdef RELATIVE_
    static const int percent[] = {0, 34, 50, 100, 255};
    q.cutoff_mode = 'R'; q.max_depth = percent[sx_pick("percent", 5)];
#else
#ifdef REFUSED
    q.cutoff_mode = sx_u8("mode"); sx_assume(q.cutoff_mode != 'R');
#else
    q.cutoff_mode = 'A';
#endif
    q.max_depth = sx_pick("depth", 4);
#endif
#endif
    std::vector<uint32_t> cutoff;
    for (auto m : ms) cutoff.push_back(!m ? 0 : q.cutoff_mode == 'R' ? q.max_depth * depth_of(m) / 100 : q.max_depth);
    index::ExpressionEncoder::Config config;
    daemon::SchemaQueryHandler h(config);
    SX_SHARE(1); SchemaAnswset* r = (SchemaAnswset*)h.handleQuery(&q); SX_SHARE(0);
    sx_assert(r != nullptr, "an answer");
    std::vector<int> group(ms.size(), -1);
    size_t prev = ~0ul, smallest = ~0ul;
    for (size_t g = 0; g < r->schemata.size(); g++) {
        ExprSchema& s = r->schemata[g];
        sx_assert(s.coverage == s.formulae.size() && s.coverage > 0, "coverage is the number of formulas of the schema");
        sx_assert(s.coverage <= prev, "schemata by decreasing coverage");
        prev = smallest = s.coverage;
        for (uint32_t f : s.formulae) {
            sx_assert(f < ms.size() && ms[f], "members are formulas of the query");
            sx_assert(group[f] == -1, "a formula belongs to one schema");
            group[f] = (int)g;
            std::vector<std::string> vars;
            sx_assert(is_schema(s.root, ms[f], 0, cutoff[f], false, vars), "the schema is the formula down to the cut-off, with different variables below");
            if (!vars.empty()) sx_reach("abstracted"); else sx_reach("complete");
        }
    }
    if (q.attrResultMaxSize == 0 || r->schemata.size() < q.attrResultMaxSize) {
        for (size_t f = 0; f < ms.size(); f++) sx_assert(!ms[f] || group[f] >= 0, "every formula belongs to a schema when no limit cuts the list");
    } else sx_assert(r->schemata.size() == q.attrResultMaxSize, "no more schemata than the limit");
#ifdef HUGE_
    // the sizes of the true classes: the first child of an application counts whatever the depth
    std::vector<unsigned> sizes(7, 0); unsigned kinds = 0; for (int k : kind) if (!sizes[k]++) kinds++;
    sx_assert((size_t)r->total == kinds, "the total is the number of all schemata");
    std::vector<int> of(7, -1);
    for (size_t f = 0; f < ms.size(); f++) {
        int k = kind[f];
        if (group[f] < 0) { sx_assert(sizes[k] <= smallest, "a limit keeps the largest schemata"); sx_reach("apart"); continue; }
        if (of[k] == -1) of[k] = group[f];
        sx_assert(of[k] == group[f], "same schema exactly when equal down to the cut-off");
        sx_assert(r->schemata[group[f]].coverage == sizes[k], "same schema exactly when equal down to the cut-off");
        sx_reach("shared");
    }
    delete r; return;
#endif
    // sizes of the true classes
    size_t classes = 0;
    for (size_t f = 0; f < ms.size(); f++) {
        if (!ms[f]) continue;
        size_t size = 1; bool firstOf = true;
        for (size_t o = 0; o < ms.size(); o++) {
            if (o == f || !ms[o]) continue;
            bool eq = sx_concretize(eq_cut(ms[f], cutoff[f], ms[o], cutoff[o], 0, false)) != 0;
            if (eq) { size++; if (o < f) firstOf = false; }
            if (group[f] >= 0) sx_assert(eq == (group[o] == group[f]), "same schema exactly when equal down to the cut-off");
            if (eq) sx_reach("shared"); else sx_reach("apart");
        }
        if (firstOf) classes++;
        if (group[f] < 0) sx_assert(size <= smallest, "a limit keeps the largest schemata");
    }
    sx_assert((size_t)r->total == classes, "the total is the number of all schemata");
    delete r;
}
