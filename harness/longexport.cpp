// P05: export of an index whose image is arbitrarily large. The file position of the writer is moved on by an
// arbitrary amount after a chosen write, as if other nodes had been written in between.
#include "memfs.hpp"
#include "search_common.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/memsector.h"
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
static memsector_writer_t w;
struct Rec { uint64_t pos; size_t at; };
static Rec rec[64]; static int nrec;
static int leaves, jump1, jump2;
static uint64_t gap1, gap2, moved;
extern "C" size_t vf_fwrite_jump(const void* p, size_t sz, size_t n, FILE* s) {
    MOpen* o = (MOpen*)s;
    if (o->pos >= sizeof(memsector_header_t)) {
        rec[nrec].pos = o->pos + moved; rec[nrec].at = o->pos; nrec++;
        if (sz * n == sizeof(leaf_t) && (*(const uint8_t*)p & 3) == LEAF_NODE) {
            if (leaves == jump1) { w.offset += gap1; moved += gap1; }
            if (leaves == jump2) { w.offset += gap2; moved += gap2; }
            leaves++;
        }
    }
    return vf_fwrite(p, sz, n, s);
}
static bool sawLong, sawShort;
static const char* base;
static IndexAccessor::Node* at(uint64_t pos) {
    for (int i = 0; i < nrec; i++) if (rec[i].pos == pos) return (IndexAccessor::Node*)(base + rec[i].at);
    sx_assert(false, "an offset leads to the start of a node");
    return nullptr;
}
static void compare(TmpIndexAccessor::Index* a, TmpIndexAccessor::Node* n, uint64_t pos, int open) {
    IndexAccessor::Node* m = at(pos);
    if (open == 0) {
        sx_assert(m->type == LEAF_NODE, "a complete term ends in a leaf");
        sx_assert(IndexAccessor::getFormulaId(m) == TmpIndexAccessor::getFormulaId(n), "formula id survives the export");
        return;
    }
    (m->type == LONG_INTERNAL_NODE ? sawLong : sawShort) = true;
    auto i = TmpIndexAccessor::getChildrenIterator(n);
    auto j = IndexAccessor::getChildrenIterator(m);
    for (;;) {
        sx_assert(i.isValid() == j.isValid(), "same number of children");
        if (!i.isValid()) break;
        encoded_token_t t = TmpIndexAccessor::getToken(i), u = IndexAccessor::getToken(j);
        sx_assert(t.id == u.id && t.arity == u.arity, "same child tokens in the same order");
        uint64_t d = (uintptr_t)m - (uintptr_t)IndexAccessor::getNode(nullptr, j);
        uint64_t e = (uintptr_t)m - (uintptr_t)IndexAccessor::getChild(nullptr, m, t);
        sx_assert(d == e, "child lookup and iteration agree");
        compare(a, TmpIndexAccessor::getNode(a, i), pos - d, open - 1 + (int)t.arity);
        i.next(); j.next();
    }
}
extern "C" void sx_main(void) {
    TmpIndex index;
    // f(a, b), f(a, c), f(d, a), g(a): inner nodes with one and several children, at different depths
    uint32_t f = 200, g = 201, a = 210, b = 211, c = 212, d = 213;
    Code t1 = {encoded_token(f, 2), encoded_token(a, 0), encoded_token(b, 0)};
    Code t2 = {encoded_token(f, 2), encoded_token(a, 0), encoded_token(c, 0)};
    Code t3 = {encoded_token(f, 2), encoded_token(d, 0), encoded_token(a, 0)};
    Code t4 = {encoded_token(g, 1), encoded_token(a, 0)};
    index.insertData(t1); index.insertData(t2); index.insertData(t3); index.insertData(t4);
    jump1 = sx_pick("jump1", 4); jump2 = sx_pick("jump2", 4); if (jump2 < jump1) return;
    gap1 = (sx_u64("gap1") & ((1ULL << 40) - 1)) * 4; gap2 = (sx_u64("gap2") & ((1ULL << 40) - 1)) * 4;
    sx_assert(memsector_create(&w, "idx") == 0, "file is created");
    index.exportToMemsector(&w);
    MFile* fl = mfs_find("idx");
    base = fl->data.data();
    const memsector_header_t* h = (const memsector_header_t*)base;
    sx_assert(h->index_size == w.offset - sizeof(*h), "the header holds the size of the image");
    sx_assert((uintptr_t)memsector_off2addr(h, h->root_off) - (uintptr_t)h == h->root_off * 4, "root address");
    compare(&index, TmpIndexAccessor::getRootNode(&index), h->root_off * 4, 1);
    if (sawLong && sawShort) sx_reach("both node forms");
    if (!sawLong) sx_reach("short nodes only");
    sx_observe("long", sawLong);
    sx_observe("size", h->index_size);
}
