// P23: maps with many keys, also as stored nodes.
#include <sx.h>
#include <cstring>
#include <vector>
#include <stdlib.h>
#include "common/utils/util.hpp"
using std::make_pair;
#include "mws/types/VectorMap.hpp"
#include "mws/index/TmpIndex.hpp"
#include "mws/index/index.h"
using mws::types::VectorMap;
extern "C" void sx_main(void) {
    static const int NS[] = {5, 8, 9, 16, 17, 33, 64, 65, 129, 257};
    int n = NS[sx_pick("count", sizeof NS / sizeof *NS)], order = sx_pick("order", 4);
    VectorMap<encoded_token_t, int> m;
    for (int j = 0; j < n; j++) {
        int i = order == 0 ? j : order == 1 ? n - 1 - j : order == 2 ? (j * 3) % n : j % 2 ? n - 1 - j / 2 : j / 2;
        auto r = m.insert(std::make_pair(encoded_token(200 + 7 * (i / 2), i % 2), i));
        if (order == 2 && n % 3 == 0) { if (!r.second) continue; }
        else sx_assert(r.second, "a new key");
        sx_assert(r.first->second == i && m.find(encoded_token(200 + 7 * (i / 2), i % 2)) == r.first, "insertion returns the entry of the key");
    }
    size_t total = order == 2 && n % 3 == 0 ? (n + 2) / 3 : n, cnt = 0;
    sx_assert(m.size() == total, "size is the number of different keys");
    inode_t* node = (inode_t*)malloc(sizeof(inode_t) + total * sizeof(encoded_token_dict_entry_t));
    inode_long_t* lnode = (inode_long_t*)malloc(sizeof(inode_long_t) + total * sizeof(encoded_token_dict_entry_long_t));
    node->size = lnode->size = total; node->type = INTERNAL_NODE; lnode->type = LONG_INTERNAL_NODE;
    std::vector<bool> seen(n);
    for (auto it = m.begin(); it != m.end(); ++it, cnt++) {
        sx_assert(cnt < total && it->second >= 0 && it->second < n && !seen[it->second], "iteration yields every key once");
        seen[it->second] = true;
        sx_assert(it->first.id == 200u + 7 * (it->second / 2) && it->first.arity == it->second % 2, "with its value");
        node->data[cnt].token = lnode->data[cnt].token = it->first;
        node->data[cnt].off = 8 * (it->second + 1); lnode->data[cnt].off = 8 * (it->second + 1);
    }
    sx_assert(cnt == total, "iteration yields every key");
    // any key
    uint32_t id = sx_u32("id") & 0xffffff; unsigned ar = sx_u8("arity");
    bool in = (id >= 200) & ((id - 200) % 7 == 0) & (ar < 2) & ((id - 200) / 7 * 2 + ar < (uint32_t)n);
    if (order == 2 && n % 3 == 0) in = in & (((id - 200) / 7 * 2 + ar) % 3 == 0);
    auto f = m.find(encoded_token(id, ar));
    sx_assert((f != m.end()) == in, "found exactly if inserted");
    uint32_t want = (id - 200) / 7 * 2 + ar;
    if (f != m.end()) { sx_assert((uint32_t)f->second == want, "with its value"); sx_reach("found"); } else sx_reach("not found");
    sx_assert(inode_get_child(node, encoded_token(id, ar)) == (in ? 8 * (want + 1) : (uint32_t)MEMSECTOR_OFF_NULL), "the stored node finds the same");
    sx_assert(inode_long_get_child(lnode, encoded_token(id, ar)) == (in ? 8 * (uint64_t)(want + 1) : (uint64_t)MEMSECTOR_OFF_NULL), "and the long one");
    sx_observe("n", n);
}
