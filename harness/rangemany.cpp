// P03: ranges over many numbers: wide nodes, several ranges in one query, repeated ranges.
#include "search_common.hpp"
#include <memory>
#ifndef NC
#define NC 40
#endif
extern "C" void sx_main(void) {
    MeaningDictionary dict;
    MeaningId app = CONSTANT_ID_MIN + dict.put("apply#");
    struct C { MeaningId id; bool num; double v; };
    std::vector<C> cs;
    double odd; sx_sym(&odd, 8, "bound"); sx_assume(odd >= -1000 && odd <= 1000); // an arbitrary bound
    for (int i = 0; i < NC; i++) { // numbers in no particular order, between non-numbers
        int v = (i * 17) % 41 - 20;
        C c; c.num = i % 4 != 3; c.v = v;
        c.id = CONSTANT_ID_MIN + dict.put((c.num ? "cn#" : i % 8 == 3 ? "ci#" : "cn#n") + std::to_string(v));
        cs.push_back(c);
    }
    int terms = 1 + sx_pick("args", 3); // arguments per term
    struct T { std::vector<int> a; FormulaId id; };
    std::vector<T> ts;
    auto add = [&](const T& t) { for (auto& o : ts) if (o.a == t.a) return; ts.push_back(t); };
    TmpIndex index;
    int n = terms == 1 ? NC : 60;
    for (int i = 0; i < n; i++) {
        T t; Code code; code.push_back(encoded_token(app, terms + 1)); code.push_back(encoded_token(app, 0));
        for (int k = 0; k < terms; k++) { int c = k == 0 ? (terms == 1 ? i : i % 8) : k == 1 ? (i * 3 + i / 8) % NC : (i * 5) % NC; t.a.push_back(c); code.push_back(encoded_token(cs[c].id, 0)); }
        if (i % 5 == 4) { Code u = code; u.back().arity = 1; u.push_back(encoded_token(cs[1].id, 0)); T c = t; c.a.back() = -1 - c.a.back(); c.id = Tester::id(index.insertData(u)); add(c); } // a compound in the last place
        t.id = Tester::id(index.insertData(code));
        add(t);
    }
    // the k-th argument of the query: a range of its own, the first range again, or a variable
    double lo[3], hi[3]; int what[3] = {0, 0, 0};
    static const double LO[] = {-20, -7, 0, 100}, HI[] = {20, 3, 0, -100};
    SearchContext::RangeBounds rb; Code q; q.push_back(encoded_token(app, terms + 1)); q.push_back(encoded_token(app, 0));
    for (int k = 0; k < terms; k++) {
        what[k] = k == 0 ? 0 : (int)sx_pick("what", 2);
        if (what[k] == 1) { q.push_back(encoded_token(HVAR_ID_MIN + 1 + k, 1)); continue; }
        if (k == 0 && terms == 1) { bool up = sx_pick("up", 2); lo[k] = up ? odd : -5; hi[k] = up ? 15 : odd; }
        else { lo[k] = LO[sx_pick("lo", 4)]; hi[k] = HI[sx_pick("hi", 4)]; }
        q.push_back(encoded_token(RANGE_ID_MIN + k, 1));
        rb.insert(std::make_pair((MeaningId)(RANGE_ID_MIN + k), std::make_pair(lo[k], hi[k])));
    }
    mws::types::Query::Options o; o.includeHits = false; o.includeMwsIds = true;
    int total; std::set<FormulaId> ids;
    {
        SearchContext ctx(q, o, rb, &dict);
        std::unique_ptr<MwsAnswset> r(ctx.getResult<TmpIndexAccessor>(&index, nullptr, 0, 100, 100));
        total = r->total; ids = r->ids;
    }
    int want = 0;
    for (auto& t : ts) {
        bool m = true;
        for (int k = 0; k < terms; k++) if (what[k] == 0 && t.a[k] < 0) { m = false; sx_reach("compound"); } else if (what[k] == 0) { const C& c = cs[t.a[k]]; m = m & c.num & (lo[k] <= c.v) & (c.v <= hi[k]); }
        sx_assert((ids.count(t.id) != 0) == m, "a term is found exactly if its numbers lie in the intervals");
        if (m) want++;
    }
    sx_assert((int)ids.size() == want, "only terms of the query's form are found");
    sx_assert(total == want, "every match is counted once");
    if (!want) sx_reach("none"); else if (want == 1) sx_reach("one"); else sx_reach("many");
    sx_observe("total", total);
}
