// P06: loading a file of arbitrary content and length. The checksum is an arbitrary function here (see crc.cpp).
#include "memfs.hpp"
#include "mws/index/index.h"
#ifndef MAXF
#define MAXF 48
#endif
static const void* crcAt; static size_t crcLen; static uint32_t crcVal; static int crcCalls;
extern "C" uint32_t crc32(uint32_t c, const void* p, size_t n) {
    crcAt = p; crcLen = n; crcCalls++;
    volatile char t = 0;
    if (n) { t = ((const char*)p)[0]; t = ((const char*)p)[n - 1]; }
    sx_assert(c == 0, "the checksum starts at 0");
    return crcVal = sx_u32("crc");
}
extern "C" void sx_main(void) {
    static const int lens[] = {0, 1, 4, 20, 27, 28, 32, 36, 40, 47, 48};
    int len = lens[sx_pick("len", 11)];
    MFile* f = mfs_make("idx");
    std::vector<unsigned char> b(len + 1);
    if (len) sx_sym(b.data(), len, "file");
    for (int i = 0; i < len; i++) f->data.push_back(b[i]);
    memsector_header_t h; memset(&h, 0, sizeof h);
    if (len >= (int)sizeof h) memcpy(&h, f->data.data(), sizeof h);
    memsector_handle_t mh; memset(&mh, 0x5a, sizeof mh);
    int rc = memsector_load(&mh, "idx");
    sx_assert(mfs_open == 0, "no descriptor stays open");
    bool ok = len >= (int)sizeof h && h.magic == 0x88CAFE88u && h.version == 1 && h.index_size <= len - sizeof h;
    if (rc == 0) {
        sx_reach("accepted");
        sx_assert(ok, "an accepted file has the magic number, the version, and as much data as its header says");
        sx_assert(crcCalls == 1 && crcLen == h.index_size && (const char*)crcAt == (const char*)mh.ms + sizeof h, "the checksum covers the data of the image");
        sx_assert(crcVal == h.checksum, "an accepted file has the checksum of its data");
        const char* root = (const char*)memsector_get_root(&mh);
        sx_assert(root >= (const char*)mh.ms + sizeof h && root < (const char*)mh.ms + len, "the root lies in the file");
        sx_assert(memcmp(mh.ms, f->data.data(), len) == 0, "the content is the content of the file");
        sx_assert(mfs_maps == 1, "one mapping");
        sx_assert(memsector_unload(&mh) == 0 && mfs_maps == 0, "the mapping is released");
    } else {
        sx_assert(rc == -1, "failure is -1");
        sx_assert(mfs_maps == 0, "a refused file leaves no mapping");
        if (ok && !(crcCalls && crcVal != h.checksum)) {
            uint64_t root = h.root_off * 4;
            sx_assert(h.root_off >= (1ULL << 60) || root < sizeof h || root + 8 > sizeof h + h.index_size, "a sound image is not refused");
            sx_reach("root outside");
        }
        if (ok && crcCalls && crcVal != h.checksum) sx_reach("checksum mismatch");
        if (len >= (int)sizeof h && h.magic == 0x88CAFE88u && h.version == 1 && h.index_size > len - sizeof h) sx_reach("cut short");
        if (len >= (int)sizeof h && h.magic != 0x88CAFE88u) sx_reach("bad magic");
    }
    sx_observe("rc", rc);
}
