// P05: node offsets in an image of any size (sparse: only the nodes of interest are written).
#include "memfs.hpp"
#include "mws/index/index.h"
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
extern "C" void sx_main(void) {
    memsector_writer_t w;
    sx_assert(memsector_create(&w, "idx") == 0, "file is created");
    // leaf at file offset a, its parent at file offset b > a, both arbitrary
    uint64_t a = sx_u64("leafpos"), b = sx_u64("nodepos");
    sx_assume(a >= sizeof(memsector_header_t) && a < (1ULL << 42) && b < (1ULL << 42) && b >= a + sizeof(leaf_t));
    sx_assume((a & 3) == 0 && (b & 3) == 0);
    w.offset = a;
    memsector_long_off_t lo = memsector_write_leaf(&w, 1, 7);
    w.offset = b;
    size_t at = mfs_find("idx")->data.size();
    memsector_long_off_t no = memsector_write_inode_begin(&w, 1, lo);
    encoded_token_t t; t.id = 200; t.arity = 0;
    memsector_write_inode_encoded_token_entry(&w, t, no - lo);
    memsector_write_inode_end(&w);
    sx_assert(lo * 4 == a && no * 4 == b, "node offsets denote the file positions of the nodes");
    inode_t* n = (inode_t*)&mfs_find("idx")->data[at];
    uint64_t rel;
    if (n->type == LONG_INTERNAL_NODE) { rel = inode_long_get_child((inode_long_t*)n, t); sx_reach("long node"); }
    else { sx_assert(n->type == INTERNAL_NODE, "node type"); rel = inode_get_child(n, t); sx_reach("short node"); }
    sx_assert(rel * 4 == b - a, "the stored offset leads from the node to its child");
    sx_observe("type", n->type);
}
