// P03: the interval of a query's range element, from its attributes, through encoding to the search.
#include "search_common.hpp"
#include "mws/types/CmmlToken.hpp"
using mws::types::CmmlToken;
static std::string number(const char* nm, double* v) {
    static const char* T[] = {"-3", "0", "2.7", "7", "-0.1", "1e3", "999.9999999", "16777217", "16777216", "-16777217", "0.3", "0.30000000000000004", "-0", "007", "12345678901234567890", "-1E-9"};
    static const double V[] = {-3, 0, 2.7, 7, -0.1, 1e3, 999.9999999, 16777217, 16777216, -16777217, 0.3, 0.30000000000000004, 0, 7, 12345678901234567890., -1e-9};
    int i = sx_pick(nm, 16);
    *v = V[i];
    return T[i];
}
extern "C" void sx_main(void) {
    double lo = 0, hi = 0, v = 0;
    bool hasLo = sx_pick("haslow", 2), hasHi = sx_pick("hashigh", 2);
    std::unique_ptr<CmmlToken> t(CmmlToken::newRoot());
    t->setTag("mws:range");
    if (hasLo) t->addAttribute("low", number("low", &lo));
    if (hasHi) t->addAttribute("high", number("high", &hi));
    std::unique_ptr<CmmlToken> c(CmmlToken::newRoot());
    bool isnum = sx_pick("isnumber", 2);
    c->setTag(isnum ? "cn" : "ci");
    c->appendTextContent(number("value", &v));
    MeaningDictionary dict;
    TmpIndex index;
    ExpressionEncoder::Config cfg;
    Code code;
    HarvestEncoder he(&dict);
    sx_assert(he.encode(cfg, c.get(), &code, nullptr) == 0, "a constant can be encoded");
    FormulaId id = Tester::id(index.insertData(code));
    QueryEncoder qe(&dict);
    ExpressionInfo info;
    Code q;
    sx_assert(qe.encode(cfg, t.get(), &q, &info) == 0, "a range can be encoded");
    mws::types::Query::Options o; o.includeHits = false; o.includeMwsIds = true;
    SearchContext ctx(q, o, info.rangeBounds, &dict);
    std::unique_ptr<MwsAnswset> r(ctx.getResult<TmpIndexAccessor>(&index, nullptr, 0, 100, 100));
    bool want = isnum && (!hasLo || lo <= v) && (!hasHi || v <= hi);
    sx_assert((r->ids.count(id) != 0) == want, "a number matches a range exactly if it lies within the given bounds");
    if (want && !hasLo && v < 0) sx_reach("no lower bound, negative number");
    if (want && hasLo && lo == v) sx_reach("lower end point");
    if (want && hasHi && hi == v) sx_reach("upper end point");
    if (!want && isnum) sx_reach("outside");
    sx_observe("found", r->total);
}
