// P03: range variables in SearchContext match exactly the numbers of the closed interval.
#include "search_common.hpp"
static const char* POOL[] = {"cn#1", "cn#-2.7", "cn#0", "ci#1", "cn#1/2", "cn#x", "cn#", "cn#16777217", "cn#1e3"};
static const double VALUE[] = {1, -2.7, 0, 0, 0, 0, 0, 16777217, 1000};
static const bool NUM[] = {true, true, true, false, false, false, false, true, true};
#ifndef NP
#define NP 6
#endif
static bool inr(int c, double lo, double hi) { return NUM[c] && lo <= VALUE[c] && VALUE[c] <= hi; }
extern "C" void sx_main(void) {
    MeaningDictionary dict;
    std::vector<MeaningId> cid;
    MeaningId app = CONSTANT_ID_MIN + dict.put("apply#"), g = CONSTANT_ID_MIN + dict.put("csymbol#g");
    for (int i = 0; i < NP; i++) cid.push_back(CONSTANT_ID_MIN + dict.put(POOL[i]));
    TmpIndex index;
    // terms f(a, b), f(c, g), f(cn(g), g): pairs of pool constants, and a compound with a number as head
    int a = sx_pick("a", NP), b = sx_pick("b", NP), c = sx_pick("c", NP);
    Code t1; t1.push_back(encoded_token(app, 2)); t1.push_back(encoded_token(cid[a], 0)); t1.push_back(encoded_token(cid[b], 0));
    Code t2; t2.push_back(encoded_token(app, 2)); t2.push_back(encoded_token(cid[c], 0)); t2.push_back(encoded_token(g, 0));
    Code t3; t3.push_back(encoded_token(app, 2)); t3.push_back(encoded_token(cid[0], 1)); t3.push_back(encoded_token(g, 0)); t3.push_back(encoded_token(g, 0));
    FormulaId i1 = Tester::id(index.insertData(t1)), i2 = Tester::id(index.insertData(t2)), i3 = Tester::id(index.insertData(t3));
    FormulaId ia = 0;
    if (sx_pick("single", 2)) { Code s; s.push_back(encoded_token(cid[a], 0)); ia = Tester::id(index.insertData(s)); }
    double lo[2], hi[2];
    for (int i = 0; i < 2; i++) { sx_sym(&lo[i], 8, "lo"); sx_sym(&hi[i], 8, "hi"); }
    sx_assume(lo[0] <= hi[0] || lo[0] > hi[0]); sx_assume(lo[1] <= hi[1] || lo[1] > hi[1]);
    SearchContext::RangeBounds rb;
    rb.insert(std::make_pair((MeaningId)RANGE_ID_MIN, std::make_pair(lo[0], hi[0])));
    rb.insert(std::make_pair((MeaningId)(RANGE_ID_MIN + 1), std::make_pair(lo[1], hi[1])));
    encoded_token_t R0 = encoded_token(RANGE_ID_MIN, 1), R1 = encoded_token(RANGE_ID_MIN + 1, 1), X = encoded_token(HVAR_ID_MIN + 1, 1);
    Code q;
    int form = sx_pick("form", 5);
    if (form == 0) q.push_back(R0);
    else {
        q.push_back(encoded_token(form == 4 ? g : app, 2));
        q.push_back(form == 3 ? X : R0);
        q.push_back(form == 1 ? R1 : form == 2 ? encoded_token(g, 0) : form == 3 ? R0 : R1);
    }
    mws::types::Query::Options o; o.includeHits = false; o.includeMwsIds = true;
    int total; std::set<FormulaId> ids;
    {
        SearchContext ctx(q, o, rb, &dict);
        std::unique_ptr<MwsAnswset> r(ctx.getResult<TmpIndexAccessor>(&index, nullptr, 0, 100, 100));
        total = r->total; ids = r->ids;
    }
    bool w1 = false, w2 = false, ws = false;
    if (form == 0) ws = ia && inr(a, lo[0], hi[0]);
    if (form == 1) { w1 = inr(a, lo[0], hi[0]) & inr(b, lo[1], hi[1]); }
    if (form == 2) { w2 = inr(c, lo[0], hi[0]); }
    if (form == 3) { w1 = inr(b, lo[0], hi[0]); }
    sx_assert((ids.count(i1) != 0) == w1, "a term is found exactly if its numbers lie in the intervals");
    sx_assert((ids.count(i2) != 0) == w2, "a term is found exactly if its number lies in the interval");
    sx_assert(ids.count(i3) == 0, "a range never matches a compound term");
    if (ia) sx_assert((ids.count(ia) != 0) == ws, "a number is found exactly if it lies in the interval");
    sx_assert(total == (int)w1 + (int)w2 + (int)ws, "every match is counted once");
    if (w1 && form == 1) sx_reach("two ranges");
    if (w1 && form == 3) sx_reach("range after variable");
    if (ws) sx_reach("range alone");
    if (w2) sx_reach("range then constant");
    sx_observe("total", total);
}
