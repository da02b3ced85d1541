// P05: export of an in-memory index to the memory-mapped image, and lookups in the image.
#include "memfs.hpp"
#include "search_common.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/memsector.h"
#ifndef NF
#define NF 2
#endif
#ifndef NT
#define NT 3
#endif
// a cheap checksum: the image's integrity check is P06's subject
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
static void compare(TmpIndexAccessor::Index* a, TmpIndexAccessor::Node* n, IndexAccessor::Index* b, IndexAccessor::Node* m, int open, int depth) {
    if (open == 0) {
        sx_assert(m->type == LEAF_NODE, "a complete term ends in a leaf");
        sx_assert(IndexAccessor::getFormulaId(m) == TmpIndexAccessor::getFormulaId(n), "formula id survives the export");
        sx_assert(IndexAccessor::getHitsCount(m) == TmpIndexAccessor::getHitsCount(n), "hit count survives the export");
        return;
    }
    auto i = TmpIndexAccessor::getChildrenIterator(n);
    auto j = IndexAccessor::getChildrenIterator(m);
    for (;;) {
        sx_assert(i.isValid() == j.isValid(), "same number of children");
        if (!i.isValid() || !j.isValid()) break;
        encoded_token_t t = TmpIndexAccessor::getToken(i), u = IndexAccessor::getToken(j);
        sx_assert(t.id == u.id && t.arity == u.arity, "same child tokens in the same order");
        sx_assert(IndexAccessor::getArity(j) == t.arity, "arity");
        IndexAccessor::Node* c = IndexAccessor::getChild(b, m, t);
        sx_assert(c != nullptr, "every child is found by its token");
        sx_assert(c == IndexAccessor::getNode(b, j), "child lookup and iteration agree");
        compare(a, TmpIndexAccessor::getNode(a, i), b, c, open - 1 + (int)t.arity, depth + 1);
        i.next(); j.next();
    }
}
extern "C" void sx_main(void) {
    auto all = shapes(NT, 3);
    TmpIndex index;
    std::vector<Code> terms;
    int nf = 1 + sx_pick("terms", NF);
    for (int k = 0; k < nf; k++) {
        Code c = sym_term(all[sx_pick("shape", all.size())], "id");
        TmpLeafNode* l = index.insertData(c);
        uint32_t h = sx_u32("hits"); sx_assume(h < (1u << 30));
        Tester::setHits(l, h);
        terms.push_back(c);
    }
    memsector_writer_t w;
    sx_assert(memsector_create(&w, "idx") == 0, "file is created");
    uint64_t announced = index.computeMemsectorSize();
    index.exportToMemsector(&w);
    sx_assert(announced == w.ms.index_size, "the announced size is the size of the image");
    sx_assert(mfs_find("idx")->data.size() == sizeof(memsector_header_t) + w.ms.index_size, "the file holds header and image");
    memsector_handle_t h;
    sx_assert(memsector_load(&h, "idx") == 0, "a written image loads");
    index_handle_t ih; ih.ms = h.ms; ih.root = memsector_get_root(&h);
    compare(&index, TmpIndexAccessor::getRootNode(&index), &ih, IndexAccessor::getRootNode(&ih), 1, 0);
    // a lookup of an arbitrary token at the root agrees with the in-memory index
    encoded_token_t t; t.id = sx_u32("probe") & 0xffffff; t.arity = sx_u8("probear");
    sx_assert((TmpIndexAccessor::getChild(&index, TmpIndexAccessor::getRootNode(&index), t) != nullptr) == (IndexAccessor::getChild(&ih, IndexAccessor::getRootNode(&ih), t) != nullptr), "a token is found in the image exactly if it is in the index");
    // the same query gives the same answer on both
    Code q; q.push_back(encoded_token(terms[0][0].id, terms[0][0].arity));
    for (unsigned i = 0; i < terms[0][0].arity; i++) q.push_back(encoded_token(HVAR_ID_MIN + (i & 1), 1));
    mws::types::Query::Options o; o.includeHits = false; o.includeMwsIds = true;
    SearchContext c1(q, o), c2(q, o);
    std::unique_ptr<MwsAnswset> r1(c1.getResult<TmpIndexAccessor>(&index, nullptr, 0, 100, 100));
    std::unique_ptr<MwsAnswset> r2(c2.getResult<IndexAccessor>(&ih, nullptr, 0, 100, 100));
    sx_assert(r1->total == r2->total && r1->ids == r2->ids, "both index forms give the same answer");
    if (r1->total > 1) sx_reach("two answers");
    if (terms[0].size() > 1) sx_reach("compound term");
    sx_assert(memsector_unload(&h) == 0 && mfs_maps == 0, "unloading releases the mapping");
    sx_observe("size", w.ms.index_size);
    sx_observe("total", r1->total);
}
