// P01: SearchContext over the in-memory index returns exactly the matching index terms, each once.
#include "search_common.hpp"
#ifndef NF
#define NF 2
#endif
#ifndef NT
#define NT 3
#endif
#ifndef NQ
#define NQ 3
#endif
static const std::vector<std::vector<int>>& S() { static auto* s = new std::vector<std::vector<int>>(shapes(NT, 2)); return *s; }
extern "C" void sx_main(void) {
    auto all = shapes(NT, 2), qs = shapes(NQ, 2);
    TmpIndex index;
    std::vector<Code> terms;
    std::vector<FormulaId> ids;
    int nf = sx_pick("terms", NF + 1);
    for (int k = 0; k < nf; k++) {
        Code c = sym_term(all[sx_pick("shape", all.size())], "id");
        TmpLeafNode* l = index.insertData(c);
        bool fresh = true;
        for (size_t j = 0; j < terms.size(); j++)
            if (same_code(terms[j], c)) { fresh = false; sx_assert(Tester::id(l) == ids[j], "equal terms get one index entry"); }
            else sx_assert(Tester::id(l) != ids[j], "different terms get different index entries");
        if (fresh) { terms.push_back(c); ids.push_back(Tester::id(l)); Tester::setHits(l, 1); }
    }
    // query: shape, and each leaf token a constant, one of two named variables, or a fresh anonymous one
    auto& sh = qs[sx_pick("qshape", qs.size())];
    Code q;
    int anon = 0; bool hasvar = false, rep = false, range = false; int used[2] = {0, 0};
    for (size_t i = 0; i < sh.size(); i++) {
        int kind = sh[i] == 0 ? sx_pick("qkind", sh.size() == 1 ? 5 : 4) : 0;
        uint32_t id;
        if (kind == 0) { id = sx_u32("qid"); sx_assume(id >= CONSTANT_ID_MIN); sx_assume(id < (1u << 24)); q.push_back(encoded_token(id, sh[i])); continue; }
        hasvar = true;
        if (kind == 4) { range = true; id = RANGE_ID_MIN; } else if (kind == 3) id = ANON_HVAR_ID_MIN + anon++; else { id = HVAR_ID_MIN + kind; if (used[kind - 1]++) rep = true; }
        q.push_back(encoded_token(id, 1));
    }
    mws::types::Query::Options o; o.includeHits = false; o.includeMwsIds = true;
    if (range && nf) sx_stop(); // ranges over a non-empty index are P03's subject
    MeaningDictionary dict;
    SearchContext::RangeBounds rb;
    rb.insert(std::make_pair((MeaningId)RANGE_ID_MIN, std::make_pair(-1.0, 1.0)));
    SearchContext ctx(q, o, rb, &dict);
    if (!nf) sx_reach("empty index");
    std::unique_ptr<MwsAnswset> r(ctx.getResult<TmpIndexAccessor>(&index, nullptr, 0, 1000, 1000));
    size_t want = 0;
    for (size_t j = 0; j < terms.size(); j++) {
        bool m = matches(q, terms[j]), got = r->ids.count(ids[j]) != 0;
        if (m) want++;
        if (m && rep) sx_reach("repeated variable matched");
        if (m && hasvar) sx_reach("variable matched");
        if (m && !hasvar) sx_reach("constant matched");
        sx_assert(!m || got, "every matching index term is returned");
        sx_assert(m || !got, "no index term that does not match is returned");
    }
    if (want == 0) sx_reach("nothing matches");
    if (want == 2) sx_reach("two match");
    sx_assert((size_t)r->total == want, "each matching index term is counted once");
    sx_observe("total", r->total);
}
