// P06: images of many sizes, written in several pieces: they load unchanged, and
// damage anywhere in them is noticed.
#include "memfs.hpp"
#include <vector>
#include <string.h>
extern "C" {
#include "mws/index/memsector.h"
}
extern "C" void sx_main(void) {
    static const size_t SIZE[] = {8, 4096, 32768, 65536, 65544, 140000, 300000};
    size_t size = SIZE[sx_pick("size", 7)];
    unsigned pieces = 1 + sx_pick("pieces", 3);
    std::vector<unsigned char> data(size);
    for (size_t i = 0; i < size; i++) data[i] = (unsigned char)(i * 7 + (i >> 8) * 13 + (i >> 16));
    memsector_writer_t w;
    sx_assert(memsector_create(&w, "idx") == 0, "an image is created");
    size_t step = size / pieces / 8 * 8, at = 0;
    for (unsigned k = 0; k < pieces; k++) {
        size_t n = k + 1 == pieces ? size - at : step;
        if (!n) continue;
        memsector_write(&w, data.data() + at, n); at += n;
    }
    memsector_long_off_t root = (sizeof(memsector_header_t) + size) / MEMSECTOR_ALLOC_UNIT - 1;
    sx_assert(memsector_save(&w, root) == 0, "writing the image succeeds exactly if every write did");
    MFile* f = mfs_find("idx");
    sx_assert(f && f->data.size() == sizeof(memsector_header_t) + size, "the image is the header and the data");
    unsigned damage = sx_pick("damage", 4);
    static const size_t AT[] = {0, 1, 4095, 4096, 32768, 65535, 65536, 131072, 262144, 299999};
    memsector_handle_t h; memset(&h, 0, sizeof h);
    if (damage == 1 || damage == 2) { // a byte altered, from the front or from the back
        size_t k = AT[sx_pick("where", 10)]; if (k >= size) { sx_reach("outside"); return; }
        if (damage == 2) k = size - 1 - k;
        f->data[sizeof(memsector_header_t) + k] ^= sx_pick("how", 2) ? 0xff : 1;
        sx_assert(memsector_load(&h, "idx") == -1, "altered data is refused");
        sx_assert(mfs_maps == 0 && mfs_open == 0, "no mapping stays");
        sx_reach("altered"); sx_observe("k", (uint64_t)k);
        return;
    }
    if (damage == 3) { // cut short
        size_t k = 1 + AT[sx_pick("where", 10)]; if (k > f->data.size()) { sx_reach("outside"); return; }
        f->data.resize(f->data.size() - k);
        sx_assert(memsector_load(&h, "idx") == -1, "a truncated file is refused");
        sx_assert(mfs_maps == 0 && mfs_open == 0, "no mapping stays");
        sx_reach("truncated"); sx_observe("k", (uint64_t)k);
        return;
    }
    sx_assert(memsector_load(&h, "idx") == 0, "a written image loads unless the system fails");
    sx_assert(h.ms->index_size == size && h.ms->root_off == root, "the image holds what was written");
    const unsigned char* p = (const unsigned char*)h.ms + sizeof(memsector_header_t);
    for (size_t i = 0; i < size; i++) if (p[i] != data[i]) { sx_assert(false, "the image holds what was written"); break; }
    sx_assert(memsector_unload(&h) == 0 && mfs_maps == 0 && mfs_open == 0, "mapping released");
    sx_reach("loaded"); sx_observe("size", (uint64_t)size);
}
