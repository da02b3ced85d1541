// P01, P05, P07, P25: indexes with many terms, long terms, wide terms and queries with many variables, on each form of
// the index: in memory, exported, and through the engine on the exported one.
#include "memfs.hpp"
#include "search_common.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/IndexIterator.hpp"
#include "mws/query/engine.h"
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
static const uint32_t B = 1000;
static encoded_token_t c0(uint32_t id) { return encoded_token(id, 0); }
static std::vector<Code> terms; static std::vector<FormulaId> ids; static std::vector<uint32_t> hits;
static TmpIndex* ix;
static void add(const Code& c) {
    TmpLeafNode* l = ix->insertData(c);
    for (auto x : ids) sx_assert(Tester::id(l) != x, "different terms get different index entries");
    terms.push_back(c); ids.push_back(Tester::id(l));
    hits.push_back(1 + terms.size() * 37 % 1009);
    Tester::setHits(l, hits.back());
}
// the formula ids in the order of the index
template <class A> static void order(typename A::Index* b, typename A::Node* n, int open, std::vector<FormulaId>& out, std::vector<uint32_t>& h) {
    if (open == 0) { out.push_back(A::getFormulaId(n)); h.push_back(A::getHitsCount(n)); return; }
    for (auto i = A::getChildrenIterator(n); i.isValid(); i.next()) {
        encoded_token_t t = A::getToken(i);
        typename A::Node* c = A::getNode(b, i);
        sx_assert(c == A::getChild(b, n, t), "child lookup and iteration agree");
        order<A>(b, c, open - 1 + (int)t.arity, out, h);
    }
}
static Code qvars(unsigned head, unsigned n, int form) {
    Code q; q.push_back(encoded_token(head, n));
    for (unsigned i = 0; i < n; i++) {
        uint32_t id = form == 0 ? ANON_HVAR_ID_MIN + i                         // all different, anonymous
                    : form == 1 ? HVAR_ID_MIN + i                              // all different, named
                    : form == 2 ? HVAR_ID_MIN + (i + 1 == n ? 0 : i)           // the last like the first
                    : form == 3 ? HVAR_ID_MIN + i / 2                          // in pairs
                    : HVAR_ID_MIN;                                             // all the same
        q.push_back(encoded_token(id, 0));
    }
    return q;
}
static FormulaId gotId[4096]; static unsigned ngot;
static result_cb_return_t cb(void*, const leaf_t* leaf) { sx_assert(ngot < 4096, "no more results than terms"); gotId[ngot++] = leaf->formula_id; return QUERY_CONTINUE; }
extern "C" void sx_main(void) {
    TmpIndex index; ix = &index;
    uint32_t a = sx_u32("symbol"); sx_assume((a >= B) & (a < B + 4));   // one arbitrary symbol of the query
    static const int M[] = {5, 17, 64, 130, 257};
    static const int W[] = {9, 16, 17, 31, 32};
    std::vector<Code> qs;
    int form = sx_pick("form", 5);
    if (form == 0) {           // many terms of one symbol, and of one symbol and one argument
        int m = M[sx_pick("many", 5)];
        for (int i = 0; i < m; i++) add(Code(1, c0(B + (i * 7) % m)));
        for (int i = 0; i < m; i++) add(Code{encoded_token(B + (i * 7) % m, 1), c0(B + i)});
        qs.push_back(Code(1, c0(ANON_HVAR_ID_MIN)));
        qs.push_back(Code(1, c0(a)));
        qs.push_back(Code{encoded_token(a, 1), c0(HVAR_ID_MIN)});
        qs.push_back(Code{encoded_token(B + m - 1, 1), c0(ANON_HVAR_ID_MIN)});
    } else if (form == 1) {    // many arguments at two places
        int m = M[sx_pick("many", 3)];
        for (int i = 0; i < m; i++) { add(Code{encoded_token(B, 2), c0(B + i), c0(B + (i * 3) % 5)}); add(Code{encoded_token(B, 2), c0(B + i), encoded_token(B, 1), c0(B + 1)}); }
        qs.push_back(Code{encoded_token(B, 2), c0(HVAR_ID_MIN), c0(HVAR_ID_MIN)});
        qs.push_back(Code{encoded_token(B, 2), c0(ANON_HVAR_ID_MIN), c0(a)});
        qs.push_back(Code{encoded_token(B, 2), c0(a), c0(HVAR_ID_MIN + 1)});
        qs.push_back(Code{encoded_token(B, 2), c0(ANON_HVAR_ID_MIN), encoded_token(B, 1), c0(HVAR_ID_MIN)});
    } else if (form == 2) {    // deep terms
        int d = M[sx_pick("deep", 3)] - 2;
        for (int v = 0; v < 3; v++) {
            Code c; for (int i = 0; i < d + v; i++) c.push_back(encoded_token(B, 1));
            c.push_back(c0(B + 1)); add(c); c.back() = c0(B + 2); add(c);
            Code e{encoded_token(B, 2)}; e.insert(e.end(), c.begin(), c.end()); e.insert(e.end(), c.begin(), c.end()); add(e);
            e.back() = c0(B + 3); add(e);
        }
        Code q; for (int i = 0; i < d; i++) q.push_back(encoded_token(B, 1));
        q.push_back(c0(ANON_HVAR_ID_MIN)); qs.push_back(q); q.back() = c0(a); qs.push_back(q);
        qs.push_back(Code{encoded_token(B, 2), c0(HVAR_ID_MIN), c0(HVAR_ID_MIN)});
        qs.push_back(Code(1, c0(HVAR_ID_MIN + 31)));
    } else if (form == 3) {    // wide terms, as many variables as there can be
        int w = W[sx_pick("wide", 5)];
        for (int v = 0; v < 4; v++) {
            Code c{encoded_token(B, w)};
            for (int i = 0; i < w; i++) c.push_back(c0(B + 10 + (v == 0 ? i : v == 1 ? (i + 1 == w ? 0 : i) : v == 2 ? i / 2 : 0)));
            add(c);
        }
        { Code c{encoded_token(B, w)}; for (int i = 0; i < w; i++) { c.push_back(encoded_token(B, 1)); c.push_back(c0(B + i % 2)); } add(c); }
        for (int f = 0; f < 5; f++) qs.push_back(qvars(B, w, f));
        { Code q = qvars(B, w, 1); q[w] = c0(a + 10); qs.push_back(q); }
        { Code q = qvars(B, w, 0); q[1] = c0(a + 10); qs.push_back(q); }
    } else {                   // wider than there are variables
        static const int V[] = {33, 127, 128, 200, 255};
        int w = V[sx_pick("wide", 5)];
        for (int v = 0; v < 3; v++) {
            Code c{encoded_token(B, w)};
            for (int i = 0; i < w; i++) c.push_back(c0(B + (i == v * (w / 2) ? 1 : 0)));
            add(c);
        }
        for (int v = 0; v < 3; v++) { Code q = terms[v]; q[w] = c0(HVAR_ID_MIN); q[1] = c0(HVAR_ID_MIN); qs.push_back(q); q = terms[v]; q[w] = c0(a); qs.push_back(q); q = terms[v]; q[1] = c0(ANON_HVAR_ID_MIN); qs.push_back(q); }
    }
    Code q = qs[sx_pick("query", qs.size())];
    std::vector<FormulaId> seq; std::vector<uint32_t> h;
    order<TmpIndexAccessor>(&index, TmpIndexAccessor::getRootNode(&index), 1, seq, h);
    sx_assert(seq.size() == terms.size(), "every term has its place in the index");
    size_t want = 0; std::set<FormulaId> wanted; std::vector<bool> m;
    for (auto& t : terms) { bool x = matches(q, t); m.push_back(x); if (x) want++; }
    if (want == 0) sx_reach("nothing matches");
    if (want == 1) sx_reach("one matches");
    if (want > 100) sx_reach("many match");
    mws::types::Query::Options o; o.includeHits = false; o.includeMwsIds = true;
    SearchContext ctx(q, o);
#if MODE == 1
    std::unique_ptr<MwsAnswset> r(ctx.getResult<TmpIndexAccessor>(&index, nullptr, 0, 100000, 100000));
#else
    memsector_writer_t w;
    sx_assert(memsector_create(&w, "idx") == 0, "file is created");
    uint64_t announced = index.computeMemsectorSize();
    index.exportToMemsector(&w);
    sx_assert(announced == w.ms.index_size, "the announced size is the size of the image");
    memsector_handle_t mh;
    sx_assert(memsector_load(&mh, "idx") == 0, "a written image loads");
    index_handle_t ih; ih.ms = mh.ms; ih.root = memsector_get_root(&mh);
#endif
#if MODE == 5
    std::vector<FormulaId> seq2; std::vector<uint32_t> h2;
    order<IndexAccessor>(&ih, IndexAccessor::getRootNode(&ih), 1, seq2, h2);
    sx_assert(seq == seq2 && h == h2, "the same terms with the same ids and hit counts in the same order");
    std::unique_ptr<MwsAnswset> r(ctx.getResult<IndexAccessor>(&ih, nullptr, 0, 100000, 100000));
#endif
#if MODE == 7
    encoded_formula_t f; f.data = q.data(); f.size = q.size();
    ngot = 0;
    sx_assert(query_engine_run(&ih, &f, cb, nullptr) == QUERY_CONTINUE, "the search runs to its end");
    size_t pos = 0;
    for (unsigned i = 0; i < ngot; i++) {
        while (pos < seq.size() && seq[pos] != gotId[i]) pos++;
        sx_assert(pos < seq.size(), "each once, in the order of the index"); pos++;
    }
    for (size_t j = 0; j < terms.size(); j++) {
        bool got = false; for (unsigned i = 0; i < ngot; i++) if (gotId[i] == ids[j]) got = true;
        sx_assert(got == m[j], "a term is reported exactly if it matches");
    }
    sx_observe("total", ngot);
#else
    for (size_t j = 0; j < terms.size(); j++) sx_assert((r->ids.count(ids[j]) != 0) == m[j], "a term is found exactly if it matches");
    sx_assert((size_t)r->total == want, "each matching index term is counted once");
    // the candidates for a variable at the root are all terms
    size_t n = 0; std::vector<Code> seen;
#if MODE == 1
    IndexIterator<TmpIndexAccessor> it; it.set(&index, TmpIndexAccessor::getRootNode(&index));
    typedef TmpIndexAccessor A;
#else
    IndexIterator<IndexAccessor> it; it.set(&ih, IndexAccessor::getRootNode(&ih));
    typedef IndexAccessor A;
#endif
    for (A::Node* e; (e = it.next()); n++) {
        sx_assert(n < seq.size() && A::getFormulaId(e) == seq[n], "the candidates are the terms in the order of the index");
        Code c; for (auto& i : it.getPath()) c.push_back(A::getToken(i));
        size_t k = 0; while (k < ids.size() && ids[k] != seq[n]) k++;
        sx_assert(k < ids.size() && same_code(c, terms[k]), "the path is the term");
    }
    sx_assert(n == seq.size(), "all of them");
    sx_observe("total", r->total);
#endif
}
