// P07: large queries and terms stay inside the engine's work areas.
#include "memfs.hpp"
#include "search_common.hpp"
#include "mws/query/engine.h"
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
static int found;
static result_cb_return_t cb(void*, const leaf_t*) { found++; return QUERY_CONTINUE; }
extern "C" void sx_main(void) {
    // the term: a chain of n unary applications around a constant, or a pair of two such chains
    static const int ns[] = {1, 100, 254, 255, 256, 257, 400, 510, 511, 512, 600};
    int n = ns[sx_pick("n", 11)];
    int form = sx_pick("form", 4);
    uint32_t f = sx_u32("f"), a = sx_u32("a");
    sx_assume(f >= CONSTANT_ID_MIN && f < (1u << 24)); sx_assume(a >= CONSTANT_ID_MIN && a < (1u << 24));
    TmpIndex index;
    Code t, q;
    auto chain = [&](Code& c) { for (int i = 0; i < n - 1; i++) c.push_back(encoded_token(f, 1)); c.push_back(encoded_token(a, 0)); };
    if (form == 0) { chain(t); chain(q); }                         // large query, no variable
    if (form == 1) { chain(t); q = {encoded_token(QVAR_ID_MIN, 0)}; } // large variable value
    if (form == 2) { t = {encoded_token(f, 2)}; chain(t); chain(t); q = {encoded_token(f, 2), encoded_token(QVAR_ID_MIN, 0), encoded_token(QVAR_ID_MIN, 0)}; }
    if (form == 3) { // three occurrences: the value is put on the query stack while others wait there
        t = {encoded_token(f, 3)}; chain(t); chain(t); chain(t);
        q = {encoded_token(f, 3), encoded_token(QVAR_ID_MIN, 0), encoded_token(QVAR_ID_MIN, 0)}; chain(q);
    }
    index.insertData(t);
    memsector_writer_t w;
    memsector_create(&w, "idx");
    index.exportToMemsector(&w);
    memsector_handle_t h;
    sx_assert(memsector_load(&h, "idx") == 0, "image loads");
    index_handle_t ih; ih.ms = h.ms; ih.root = memsector_get_root(&h);
    encoded_formula_t e; e.data = q.data(); e.size = q.size();
    found = 0;
    int rc = query_engine_run(&ih, &e, cb, nullptr);
    if (rc == QUERY_CONTINUE) { sx_assert(found == 1, "the term is found"); sx_reach("found"); }
    else { sx_assert(rc == QUERY_ERROR && found == 0, "a query that exceeds the limits is an error"); sx_assert(n > 100, "small terms do not exceed the limits"); sx_reach("limit"); }
    sx_observe("rc", rc);
}
