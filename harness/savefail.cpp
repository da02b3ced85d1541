// P06: saving and loading under failing system calls, with the real checksum.
#include "memfs.hpp"
#include "search_common.hpp"
#include "mws/index/IndexAccessor.hpp"
extern "C" void sx_main(void) {
    TmpIndex index;
    uint32_t a = 130 + sx_pick("a", 3);
    Code t1 = {encoded_token(200, 2), encoded_token(a, 0), encoded_token(131, 0)};
    Code t2 = {encoded_token(a, 0)};
    Tester::setHits(index.insertData(t1), 5);
    if (sx_pick("two", 2)) Tester::setHits(index.insertData(t2), 7);
    bool failed = false;
    mfs_fail_write = sx_pick("failwrite", 16) - 1;
    if (mfs_fail_write < 0) mfs_fail_call = sx_pick("failcall", 8) - 1;
    memsector_writer_t w;
    int rc = memsector_create(&w, "idx");
    if (rc == 0) rc = index.exportToMemsector(&w);
    failed = (mfs_fail_write >= 0 && mfs_write_calls > mfs_fail_write) || (mfs_fail_call >= 0 && mfs_calls > mfs_fail_call);
    sx_assert((rc == 0) == !failed, "writing the image succeeds exactly if every write did");
    sx_assert(mfs_open == 0, "the file is closed");
    if (failed) { sx_reach("write failed"); sx_observe("rc", rc); return; }
    memsector_handle_t h;
    int flip = sx_pick("damage", 3);
    MFile* f = mfs_find("idx");
    if (flip == 1) { // one byte of the data altered
        unsigned k = sizeof(memsector_header_t) + sx_pick("where", 64);
        if (k >= f->data.size()) return;
        uint8_t x = sx_pick("how", 2) ? 1 : 0x80;
        f->data[k] ^= x;
        sx_assert(memsector_load(&h, "idx") == -1, "altered data is refused");
        sx_reach("altered");
        sx_observe("k", k);
        return;
    }
    if (flip == 2) { // cut short
        unsigned k = sx_pick("cut", 96);
        if (k >= f->data.size()) return;
        f->data.resize(k);
        sx_assert(memsector_load(&h, "idx") == -1, "a truncated file is refused");
        sx_reach("truncated");
        sx_observe("k", k);
        return;
    }
    int before = mfs_calls;
    rc = memsector_load(&h, "idx");
    failed = mfs_fail_call >= before && mfs_calls > mfs_fail_call;
    sx_assert((rc == 0) == !failed, "a written image loads unless the system fails");
    sx_assert(mfs_open == 0, "descriptors are closed");
    if (rc != 0) { sx_assert(mfs_maps == 0, "no mapping stays"); sx_reach("load failed"); sx_observe("rc", rc); return; }
    index_handle_t ih; ih.ms = h.ms; ih.root = memsector_get_root(&h);
    auto n = IndexAccessor::getRootNode(&ih);
    for (size_t i = 0; i < t1.size() && n; i++) n = IndexAccessor::getChild(&ih, n, t1[i]);
    sx_assert(n && n->type == LEAF_NODE && IndexAccessor::getHitsCount(n) == 5, "the stored term is found");
    sx_reach("loaded");
    memsector_unload(&h);
    sx_assert(mfs_maps == 0, "mapping released");
    sx_observe("size", (uint64_t)f->data.size());
}
