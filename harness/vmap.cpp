// P23: the ordered child map as a map, for every history.
#include <sx.h>
#include <cstring>
#include <vector>
#include "common/utils/util.hpp"
using std::make_pair;
#include "mws/types/VectorMap.hpp"
#include "mws/index/TmpIndex.hpp"
#include "mws/index/index.h"
using mws::types::VectorMap;
#ifndef NK
#define NK 4
#endif
extern "C" void sx_main(void) {
    VectorMap<encoded_token_t, int> m;
    encoded_token_t k[NK]; int first[NK]; bool dup[NK]; size_t distinct = 0;
    sx_assert(m.find(k[0]) == m.end() && m.size() == 0, "an empty map has no keys");
    int n = sx_pick("inserts", NK + 1);
    for (int i = 0; i < n; i++) {
        k[i] = encoded_token(sx_u32("id"), sx_u8("arity"));
        first[i] = i; dup[i] = false;
        for (int j = i - 1; j >= 0; j--) if (k[j].id == k[i].id && k[j].arity == k[i].arity) { first[i] = first[j]; dup[i] = true; break; }
        if (!dup[i]) distinct++;
        switch (i == 0 || !dup[i] ? 0 : sx_pick("how", 2)) {
        case 0: {
            auto r = m.insert(std::make_pair(k[i], i));
            sx_assert(r.second == !dup[i], "insertion tells whether the key is new");
            sx_assert(r.first->second == first[i] && r.first->first.id == k[i].id && r.first->first.arity == k[i].arity, "insertion returns the entry of the key");
            break; }
        case 1: sx_assert(m[k[i]] == first[i], "existing entries are kept"); break;
        }
        sx_assert(m.size() == distinct, "size is the number of different keys");
        for (int j = 0; j <= i; j++) {
            auto it = m.find(k[j]);
            sx_assert(it != m.end(), "every inserted key is found");
            sx_assert(it->second == first[j] && it->first.id == k[j].id && it->first.arity == k[j].arity, "with the value inserted first");
        }
    }
    // another key
    encoded_token_t o = encoded_token(sx_u32("other"), sx_u8("oarity"));
    bool in = false;
    for (int i = 0; i < n; i++) in = in | ((k[i].id == o.id) & (k[i].arity == o.arity));
    sx_assert((m.find(o) != m.end()) == in, "nothing else is found");
    const VectorMap<encoded_token_t, int>& cm = m;
    sx_assert((cm.find(o) != cm.end()) == in, "nothing else is found (const)");
    // iteration: one order, whatever the history, and the order the stored index is searched by
#ifdef REV
    VectorMap<encoded_token_t, int> rev;
    for (int i = n - 1; i >= 0; i--) rev.insert(std::make_pair(k[i], i));
    sx_assert(rev.size() == distinct, "size does not depend on the order of insertion");
    auto rit = rev.begin();
#endif
    char buf[sizeof(inode_t) + NK * sizeof(inode_t)];
    inode_t* node = (inode_t*)buf;
    node->size = distinct;
    size_t cnt = 0;
    for (auto it = cm.begin(); it != cm.end(); ++it, cnt++) {
        bool known = false;
        for (int i = 0; i < n; i++) known = known | ((k[i].id == it->first.id) & (k[i].arity == it->first.arity));
        sx_assert(known, "iteration yields inserted keys only");
#ifdef REV
        sx_assert(rit->first.id == it->first.id && rit->first.arity == it->first.arity, "the order of iteration does not depend on the order of insertion");
        ++rit;
#endif
        node->data[cnt].token = it->first;
        node->data[cnt].off = cnt + 1;
        for (size_t j = 0; j < cnt; j++) sx_assert(memcmp(&node->data[j].token, &it->first, sizeof(encoded_token_t)) != 0, "no duplicates");
    }
    for (size_t j = 0; j < cnt; j++) sx_assert(inode_get_child(node, node->data[j].token) == j + 1, "the stored index finds every key");
    sx_assert((inode_get_child(node, o) != MEMSECTOR_OFF_NULL) == in, "the stored index finds nothing else");
    sx_assert(cnt == distinct, "iteration yields every key");
    if (distinct == NK) sx_reach("all different");
    if (n == NK && distinct == NK - 1) sx_reach("one repeated");
}
