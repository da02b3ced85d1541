// P06: the checksum detects every change of one byte, in data of any length:
//  (1) crc(crc(c, a), b) = crc(c, ab); (2) different bytes give different sums; (3) different sums stay different.
#include <sx.h>
extern "C" {
#include <crc32/crc32.h>
}
extern "C" void sx_main(void) {
    uint32_t c = sx_u32("c"), d = sx_u32("d");
    uint8_t a = sx_u8("a"), b = sx_u8("b");
    uint8_t ab[2] = {a, b};
    switch (sx_pick("lemma", 5)) {
    case 0: sx_reach("incremental"); sx_assert(crc32(crc32(c, &a, 1), &b, 1) == crc32(c, ab, 2), "the checksum can be computed piecewise"); break;
    case 1: sx_reach("bytes"); sx_assume(a != b); sx_assert(crc32(c, &a, 1) != crc32(c, &b, 1), "different bytes give different checksums"); break;
    case 2: sx_reach("state"); sx_assume(c != d); sx_assert(crc32(c, &a, 1) != crc32(d, &a, 1), "different checksums stay different"); break;
    case 3: sx_reach("empty"); sx_assert(crc32(c, &a, 0) == c, "no data, no change"); break;
    case 4: { // the checksum is the standard CRC-32: bitwise definition
        sx_reach("standard");
        uint32_t s = ~c ^ a;
        for (int i = 0; i < 8; i++) s = (s >> 1) ^ (0xEDB88320u & (0 - (s & 1)));
        sx_assert(crc32(c, &a, 1) == ~s, "CRC-32 as published, so that images of other builds load");
        break; }
    }
    sx_observe("done", 1);
}
