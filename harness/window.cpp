// P02: the answers of a search are the slice [offset, offset+size) of the complete list of hits, cut at the total limit.
#include "search_common.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/dbc/MemCrawlDb.hpp"
#ifndef NF
#define NF 2
#endif
#ifndef MAXH
#define MAXH 3
#endif
extern "C" void sx_main(void) {
    TmpIndex index;
    dbc::MemFormulaDb fdb;
    dbc::DbQueryManager mgr(nullptr, &fdb);
    // NF different one-token terms, each with an arbitrary number (1..MAXH) of hits
    std::vector<unsigned> hits; std::vector<FormulaId> fid;
    unsigned all = 0;
    bool incl = sx_pick("includeHits", 2);
    for (int k = 0; k < NF; k++) {
        Code c; c.push_back(encoded_token(CONSTANT_ID_MIN + k, 0));
        TmpLeafNode* l = index.insertData(c);
#ifdef MANY
        unsigned h = k == 7 ? 120 : 1 + (k + 2) % MAXH;
#else
        unsigned h = 1 + sx_pick("hits", MAXH);
#endif
        Tester::setHits(l, h);
        for (unsigned i = 0; i < h; i++) { char a[2] = {(char)('a' + k), 0}, b[2] = {(char)('0' + i), 0}; fdb.insertFormula(Tester::id(l), dbc::CRAWLID_NULL, types::FormulaPath(a, b)); }
        hits.push_back(h); fid.push_back(Tester::id(l)); all += incl ? h : 1;
    }
    Code q; q.push_back(encoded_token(ANON_HVAR_ID_MIN, 1));
#ifdef MANY
    static const unsigned OFF[] = {0, 1, 9, 10, 29, 30, 31, 99, 100, 128, 160, 4000000000u}, SIZE[] = {0, 1, 10, 29, 30, 31, 64, 99, 100, 101, 128, 130, 1000, 4294967295u}, TOT[] = {0, 5, 50, 100, 101, 150, 1000, 4294967295u};
    unsigned offset = OFF[sx_pick("offset", 12)], size = SIZE[sx_pick("size", 14)], total = TOT[sx_pick("maxTotal", 8)];
#else
    unsigned offset = sx_u32("offset"), size = sx_u32("size"), total = sx_u32("maxTotal");
#endif
    mws::types::Query::Options o; o.includeHits = incl; o.includeMwsIds = true;
    SearchContext ctx(q, o);
    std::unique_ptr<MwsAnswset> r(ctx.getResult<TmpIndexAccessor>(&index, &mgr, offset, size, total));
    uint64_t lo = offset, hi = (uint64_t)offset + size;
    if (hi > total) hi = total;
    if (hi > all) hi = all;
    uint64_t n = hi > lo ? hi - lo : 0;
    sx_assert((uint64_t)(unsigned)r->total == (all < total ? all : total), "reported total is the number of hits, cut at the total limit");
    if (incl) {
        sx_assert(r->answers.size() == n, "number of answers is the size of the requested slice");
        size_t i = 0; uint64_t pos = 0;
        for (int k = 0; k < NF; k++) for (unsigned j = 0; j < hits[k]; j++, pos++)
            if (pos >= lo && pos < hi) {
                sx_assert(i < r->answers.size() && r->answers[i]->uri[0] == (char)('a' + k) && r->answers[i]->xpath[0] == (char)('0' + j), "answers are the hits of the slice, in order");
                i++;
            }
        if (n > 0 && lo > 0 && lo < hits[0]) sx_reach("slice starts inside an entry");
        if (n > 0 && hi == total && total < all) sx_reach("slice cut by the total limit");
        if (n > 0 && n == size) sx_reach("full page");
        if (n == 0) sx_reach("empty page");
    } else {
        uint64_t pos = 0;
        for (int k = 0; k < NF; k++, pos++) sx_assert((r->ids.count(fid[k]) != 0) == (pos >= lo && pos < hi), "ids are the entries of the slice");
    }
    sx_observe("n", r->answers.size());
    sx_observe("total", r->total);
}
