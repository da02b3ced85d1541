// P04: every subterm of every indexed formula is found and attributed to exactly the formulas that contain it.
#include "cmml.hpp"
#include "search_common.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/index/IndexBuilder.hpp"
#ifndef NF
#define NF 2
#endif
#ifndef NT
#define NT 3
#endif
#ifndef NP
#define NP 3
#endif
#ifndef NT2
#define NT2 2
#endif
struct F { std::vector<Model*> ns; Model* root; std::vector<std::string> paths; };
static F formula(int n) {
    auto all = shapes(n, 2);
    F f;
    f.root = model_of(all[sx_pick("shape", all.size())], f.ns);
    for (auto m : f.ns) {
        m->tag = "c";
        uint8_t c = sx_u8("symbol");
        sx_assume(!is_space(c));
        m->text = std::string(1, (char)c);
    }
    return f;
}
static bool same(Model* a, Model* b) {
    if (a->kids.size() != b->kids.size()) return false;
    for (size_t i = 0; i < a->kids.size(); i++) if (a->kids[i]->kids.size() != b->kids[i]->kids.size()) return false;
    bool eq = same_bytes(a->text, b->text);
    for (size_t i = 0; i < a->kids.size(); i++) eq = eq & same(a->kids[i], b->kids[i]);
    return eq;
}
struct Hit { dbc::CrawlId crawl; std::string xml, xpath; };
#ifdef MANY
// formulas with many shared parts: f_i(x_i, 7, g(x_j, ..)), and every eighth a deep or a wide one
static Model* kid(F& f, Model* p, const std::string& t) { Model* m = new_model(p); m->tag = "c"; m->text = t; f.ns.push_back(m); if (!p) f.root = m; return m; }
static F manyformula(int k, char sym) {
    F f; Model* r = kid(f, nullptr, "f" + std::to_string(k % 6));
    if (k == 8) for (int i = 0; i < 30; i++) r = kid(f, r, "d");
    if (k == 16) for (int i = 0; i < 40; i++) kid(f, r, "w" + std::to_string(i % 20));
    kid(f, r, k == 3 ? std::string(1, sym) : std::string(1, (char)('a' + k % 7)));
    kid(f, r, "7"); Model* g = kid(f, r, "g"); kid(f, g, std::string(1, (char)('a' + k % 3))); kid(f, kid(f, g, "h"), "7");
    return f;
}
#endif
extern "C" void sx_main(void) {
    TmpIndex index; dbc::MemFormulaDb db; MeaningDictionary dict;
    IndexBuilder builder(&db, nullptr, &index, &dict);
    std::vector<F> fs;
    // either all subterms of the formulas are looked up, or one arbitrary other term
#ifdef MANY
    F probe; bool other = false; uint8_t sym = sx_u8("symbol"); sx_assume((sym >= 'a') & (sym <= 'i'));
    for (int k = 0; k < NF; k++) fs.push_back(manyformula(k, (char)sym));
    int nf = NF;
#else
    bool other = sx_pick("other", 2);
    int nf = other ? 1 : NF;
    for (int k = 0; k < nf; k++) fs.push_back(formula(k == 0 ? NT : NT2));
    F probe; if (other) probe = formula(NP);
#endif
    for (int k = 0; k < nf; k++) {
        CmmlToken* t = build(fs[k].root);
        for (auto m : fs[k].ns) fs[k].paths.push_back(m->tok->getXpath());
        char id[3] = {'f', (char)('0' + k), 0};
        int n = builder.indexContentMath(t, id, 100 + k);
        // number of different subterms
        int want = 0;
        for (size_t i = 0; i < fs[k].ns.size(); i++) { bool d = false; for (size_t j = 0; j < i; j++) d = d | same(fs[k].ns[i], fs[k].ns[j]); if (!d) want++; }
        sx_assert(n == want, "the number of different subterms is reported");
        if (want < (int)fs[k].ns.size()) sx_reach("repeated subterm");
    }
    // every subterm of every formula, and one arbitrary other term
    std::vector<Model*> ask;
    if (other) ask.push_back(probe.root);
#ifdef MANY
    else { unsigned a = sx_pick("formula", 6); static const int A[] = {0, 3, 8, 16, 20, NF - 1}; for (auto m : fs[A[a]].ns) ask.push_back(m); }
#else
    else for (auto& f : fs) for (auto m : f.ns) ask.push_back(m);
#endif
    for (auto m : ask) {
        CmmlToken* t = build(m);
        std::vector<encoded_token_t> code;
        QueryEncoder enc(&dict);
        const TmpIndexNode* node = nullptr;
        if (enc.encode(ExpressionEncoder::Config(), t, &code, nullptr) == 0) {
            node = TmpIndexAccessor::getRootNode(&index);
            for (auto x : code) if (node) node = TmpIndexAccessor::getChild(&index, node, x);
        }
        std::vector<int> in;
        for (int k = 0; k < nf; k++) { bool c = false; for (auto x : fs[k].ns) c = c | same(x, m); if (c) in.push_back(k); }
        sx_assert((node != nullptr) == !in.empty(), "a term is found exactly if a formula contains it");
        if (!node) { sx_reach("not contained"); continue; }
        std::vector<Hit> hits;
        db.queryFormula(TmpIndexAccessor::getFormulaId(node), 0, 1000, [&](const dbc::CrawlId& c, const types::FormulaPath& p) { Hit h; h.crawl = c; h.xml = p.xmlId; h.xpath = p.xpath; hits.push_back(h); return 0; });
        sx_assert(TmpIndexAccessor::getHitsCount(node) == hits.size(), "the hit count is the number of attributed formulas");
        sx_assert(hits.size() == in.size(), "attributed once to each formula that contains it");
        if (in.size() == 2) sx_reach("in two formulas");
        if (in.size() > 30) sx_reach("in many formulas");
        for (size_t i = 0; i < in.size(); i++) {
            char id[3] = {'f', (char)('0' + in[i]), 0};
            sx_assert(hits[i].xml == id && hits[i].crawl == 100u + in[i], "attributed to the formulas that contain it");
            bool at = false;
            auto& f = fs[in[i]];
            for (size_t j = 0; j < f.ns.size(); j++) if (f.paths[j] == hits[i].xpath) at = at | same(f.ns[j], m);
            sx_assert(at, "the position is one of the subterm in that formula");
        }
        // searching for it gives the same
        mws::types::Query::Options o; o.includeHits = false; o.includeMwsIds = true;
        SearchContext ctx(code, o);
        std::unique_ptr<MwsAnswset> r(ctx.getResult<TmpIndexAccessor>(&index, nullptr, 0, 100, 100));
        sx_assert(r->total == 1 && r->ids.size() == 1 && *r->ids.begin() == TmpIndexAccessor::getFormulaId(node), "a search finds exactly this entry");
    }
    sx_observe("asked", ask.size());
}
