// P07: the engine on the memory-mapped index against a direct definition of matching.
#include "memfs.hpp"
#include "search_common.hpp"
#include "mws/query/engine.h"
#ifndef NF
#define NF 2
#endif
#ifndef NT
#define NT 3
#endif
#ifndef NQ
#define NQ 3
#endif
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
struct Got { std::vector<uint32_t> ids; int stopAt; result_cb_return_t how; bool stopped; };
static result_cb_return_t cb(void* h, const leaf_t* leaf) {
    Got* g = (Got*)h;
    sx_assert(!g->stopped, "nothing is reported after the caller asked to stop");
    sx_assert(leaf->type == LEAF_NODE, "a leaf is reported");
    g->ids.push_back(leaf->formula_id);
    if ((int)g->ids.size() == g->stopAt) { g->stopped = true; return g->how; }
    return QUERY_CONTINUE;
}
static void order(TmpIndexAccessor::Index* b, TmpIndexAccessor::Node* n, int open, std::vector<FormulaId>& out) {
    if (open == 0) { out.push_back(TmpIndexAccessor::getFormulaId(n)); return; }
    for (auto i = TmpIndexAccessor::getChildrenIterator(n); i.isValid(); i.next())
        order(b, TmpIndexAccessor::getNode(b, i), open - 1 + (int)TmpIndexAccessor::getToken(i).arity, out);
}
extern "C" void sx_main(void) {
    auto all = shapes(NT, 2), qs = shapes(NQ, 2);
    TmpIndex index;
    std::vector<Code> terms; std::vector<FormulaId> ids;
    int nf = 1 + sx_pick("terms", NF);
    for (int k = 0; k < nf; k++) {
        Code c = sym_term(all[sx_pick("shape", all.size())], "id");
        TmpLeafNode* l = index.insertData(c);
        FormulaId id = Tester::id(l);
        bool dup = false;
        for (auto x : ids) if (x == id) dup = true;
        if (!dup) { terms.push_back(c); ids.push_back(id); }
    }
    // a query: constants and query variables at leaf positions
    Code q; auto& s = qs[sx_pick("qshape", qs.size())];
    static const uint32_t vars[] = {QVAR_ID_MIN, QVAR_ID_MAX, ANON_QVAR_ID_MIN, ANON_QVAR_ID_MAX, HVAR_ID_MIN};
    for (size_t i = 0; i < s.size(); i++) {
        int v = s[i] == 0 ? sx_pick("isvar", 6) : 0;
        if (v) { q.push_back(encoded_token(vars[v - 1], 0)); continue; }
        uint32_t id = sx_u32("qid");
        sx_assume(id >= CONSTANT_ID_MIN); sx_assume(id < (1u << 24));
        q.push_back(encoded_token(id, s[i]));
    }
    memsector_writer_t w;
    memsector_create(&w, "idx");
    index.exportToMemsector(&w);
    memsector_handle_t h;
    sx_assert(memsector_load(&h, "idx") == 0, "image loads");
    index_handle_t ih; ih.ms = h.ms; ih.root = memsector_get_root(&h);
    Got g; g.stopped = false; g.stopAt = sx_pick("stop", 3); g.how = sx_pick("how", 2) ? QUERY_STOP : QUERY_ERROR;
    if (g.stopAt == 0 && g.how == QUERY_ERROR) return;
    encoded_formula_t f; f.data = q.data(); f.size = q.size();
    int rc = query_engine_run(&ih, &f, cb, &g);
    sx_assert(rc == (g.stopped ? g.how : QUERY_CONTINUE), "the result says whether the caller stopped the search");
    size_t expected = 0;
    for (size_t k = 0; k < terms.size(); k++) {
        bool m = matches(q, terms[k]);
        size_t n = 0;
        for (auto x : g.ids) if (x == ids[k]) n++;
        if (m) expected++;
        sx_assert(n <= 1, "no term is reported twice");
        if (g.stopped) sx_assert(n == 0 || m, "only matching terms are reported");
        else sx_assert(n == (m ? 1 : 0), "a term is reported exactly if it matches");
    }
    sx_assert(g.ids.size() <= expected, "nothing else is reported");
    std::vector<FormulaId> seq; order(&index, TmpIndexAccessor::getRootNode(&index), 1, seq);
    size_t pos = 0;
    for (auto x : g.ids) { while (pos < seq.size() && seq[pos] != x) pos++; sx_assert(pos < seq.size(), "in the order of the index"); pos++; }
    if (g.stopped) for (size_t k = 0; k < terms.size(); k++) for (size_t p = 0; p < pos; p++) if (seq[p] == ids[k] && matches(q, terms[k])) { size_t n = 0; for (auto x : g.ids) if (x == ids[k]) n++; sx_assert(n == 1, "none is left out before the last one reported"); }
    if (g.stopped) { sx_reach("stopped"); sx_assert((int)g.ids.size() == g.stopAt, "stops at once"); }
    else if (expected == 2) sx_reach("two match");
    else if (expected == 0) sx_reach("nothing matches");
    if (!g.stopped && q.size() == 3 && q[1].id <= VAR_ID_MAX && q[2].id == q[1].id && expected) sx_reach("repeated variable");
    sx_observe("found", g.ids.size());
}
