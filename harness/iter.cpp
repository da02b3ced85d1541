// P25: the candidates for a variable at any position of the index, on both forms of the index.
#include "memfs.hpp"
#include "search_common.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/IndexIterator.hpp"
#include "mws/index/CallbackIndexIterator.hpp"
#ifndef NF
#define NF 3
#endif
#ifndef NT
#define NT 3
#endif
extern "C" uint32_t crc32(uint32_t c, const void*, size_t n) { return c + n; }
template <class A>
static void check(typename A::Index* index, const Code& prefix, const std::vector<Code>& want) {
    typename A::Node* start = A::getRootNode(index);
    for (auto t : prefix) { start = A::getChild(index, start, t); sx_assert(start != nullptr, "the start position exists"); }
    std::vector<encoded_token_t> stack; size_t pops = 0;
    std::vector<Code> seen;
    CallbackIndexIterator<A> it(index, start,
        [&](typename A::Iterator i) { stack.push_back(A::getToken(i)); },
        [&](typename A::Iterator i) { sx_assert(!stack.empty(), "balanced notifications"); encoded_token_t t = A::getToken(i); sx_assert(stack.back().id == t.id && stack.back().arity == t.arity, "the innermost token is left first"); stack.pop_back(); pops++; });
    IndexIterator<A> plain;
    plain.set(index, start);
    for (int round = 0; round < 2; round++) {
        seen.clear();
        for (;;) {
            typename A::Node* n = it.next();
            typename A::Node* m = plain.next();
            sx_assert(n == m, "both iterators agree");
            if (!n) break;
            Code c;
            for (auto& i : it.getPath()) c.push_back(A::getToken(i));
            int open = 1; size_t p = 0;
            for (; p < c.size() && open > 0; p++) open += (int)c[p].arity - 1;
            sx_assert(open == 0 && p == c.size(), "a complete subterm, nothing more");
            sx_assert(same_code(c, stack), "the notifications describe the path");
            typename A::Node* e = start;
            for (auto t : c) { e = A::getChild(index, e, t); sx_assert(e != nullptr, "the path exists"); }
            sx_assert(e == n, "the position returned follows the subterm");
            bool in = false;
            for (auto& w : want) in = in | same_code(w, c);
            sx_assert(in, "only subterms stored at the position");
            for (auto& s : seen) sx_assert(!same_code(s, c), "each subterm once");
            seen.push_back(c);
            sx_assert(seen.size() <= want.size(), "each subterm once");
        }
        for (auto& w : want) {
            bool in = false;
            for (auto& s : seen) in = in | same_code(w, s);
            sx_assert(in, "every subterm stored at the position");
        }
        sx_assert(stack.empty(), "everything entered was left");
        if (seen.size() == 2) sx_reach("two candidates");
        if (seen.size() == 3) sx_reach("three candidates");
        if (round == 1) sx_reach("started again");
    }
    sx_observe("candidates", seen.size());
}
// the same index with the node form used when a child lies 2^32 units or more before its parent
static char img[4096] __attribute__((aligned(8)));
static size_t used = 64;
static size_t put_long(const inode_t* n, int depth, size_t open, int which) {
    size_t k = n->size;
    std::vector<size_t> at;
    std::vector<encoded_token_t> tok;
    for (size_t i = 0; i < k; i++) {
        const char* c = (const char*)n - (uint64_t)MEMSECTOR_ALLOC_UNIT * n->data[i].off;
        size_t o = open - 1 + n->data[i].token.arity;
        tok.push_back(n->data[i].token);
        if (o == 0) { memcpy(img + used, c, sizeof(leaf_t)); at.push_back(used); used += sizeof(leaf_t); }
        else at.push_back(put_long((const inode_t*)c, depth + 1, o, which));
    }
    size_t me = used;
    if (which == 2 || which == depth) {
        inode_long_t* l = (inode_long_t*)(img + me);
        l->type = LONG_INTERNAL_NODE; l->size = k;
        for (size_t i = 0; i < k; i++) { l->data[i].token = tok[i]; l->data[i].off = (me - at[i]) / MEMSECTOR_ALLOC_UNIT; }
        used += sizeof(inode_long_t) + k * sizeof(encoded_token_dict_entry_long_t);
    } else {
        inode_t* l = (inode_t*)(img + me);
        l->type = INTERNAL_NODE; l->size = k;
        for (size_t i = 0; i < k; i++) { l->data[i].token = tok[i]; l->data[i].off = (me - at[i]) / MEMSECTOR_ALLOC_UNIT; }
        used += sizeof(inode_t) + k * sizeof(encoded_token_dict_entry_t);
    }
    sx_assert(used <= sizeof img, "harness: the image fits");
    return me;
}
extern "C" void sx_main(void) {
    auto all = shapes(NT, 2);
    TmpIndex index;
    std::vector<Code> terms;
    int nf = sx_pick("terms", NF + 1);
    for (int k = 0; k < nf; k++) {
        Code c = sym_term(all[sx_pick("shape", all.size())], "id");
        index.insertData(c);
        terms.push_back(c);
    }
    Code prefix;
    if (nf) {
        size_t k = sx_pick("position", terms[0].size());
        prefix.assign(terms[0].begin(), terms[0].begin() + k);
        if (k) sx_reach("inner position");
    } else sx_reach("empty index");
    std::vector<Code> want;
    for (auto& t : terms) {
        if (t.size() <= prefix.size()) continue;
        bool eq = true;
        for (size_t i = 0; i < prefix.size(); i++) eq = eq & (t[i].id == prefix[i].id) & (t[i].arity == prefix[i].arity);
        if (eq) want.push_back(Code(t.begin() + prefix.size(), t.begin() + subterm_end(t, prefix.size())));
    }
    check<TmpIndexAccessor>(&index, prefix, want);
    if (!nf) return;
    memsector_writer_t w;
    memsector_create(&w, "idx");
    index.exportToMemsector(&w);
    memsector_handle_t h;
    sx_assert(memsector_load(&h, "idx") == 0, "image loads");
    index_handle_t ih; ih.ms = h.ms; ih.root = memsector_get_root(&h);
    check<IndexAccessor>(&ih, prefix, want);
    int which = prefix.size() == 1 ? 1 : prefix.size() ? 0 : 2;  // nodes at depth 0, depth 1, or all of them
    ih.root = (const inode_long_t*)(img + put_long((const inode_t*)ih.root, 0, 1, which));
    check<IndexAccessor>(&ih, prefix, want);
    if (which != 1 || terms[0].size() > 1) sx_reach("long nodes");
}
