// P13: traversal, positions, size and depth of expression trees.
#include "cmml.hpp"
#ifndef NT
#define NT 5
#endif
// follow a position path from the root; nullptr if it does not lead to a node
static CmmlToken* follow(CmmlToken* root, const std::string& path) {
    size_t i = 0;
    CmmlToken* cur = nullptr;
    while (i < path.size()) {
        if (path.compare(i, 3, "/*[") != 0) return nullptr;
        i += 3;
        size_t n = 0, d = 0;
        while (i < path.size() && path[i] >= '0' && path[i] <= '9') { n = n * 10 + (path[i] - '0'); i++; d++; }
        if (!d || i >= path.size() || path[i] != ']') return nullptr;
        i++;
        if (!cur) { if (n != 1) return nullptr; cur = root; continue; }
        if (n < 1 || n > cur->getChildNodes().size()) return nullptr;
        auto it = cur->getChildNodes().begin();
        while (--n) ++it;
        cur = *it;
    }
    return cur;
}
static uint32_t size_of(Model* m) { uint32_t n = 1; for (auto k : m->kids) n += size_of(k); return n; }
static uint32_t depth_of(Model* m) { uint32_t d = 0; for (auto k : m->kids) { uint32_t x = depth_of(k) + 1; if (x > d) d = x; } return d; }
extern "C" void sx_main(void) {
    auto ss = shapes(NT, 12);
    std::vector<int> wide;   // one wide tree: positions with two digits
    for (int i = 0; i < 13; i++) wide.push_back(i ? 0 : 12);
    ss.push_back(wide);
#ifdef LONG
    ss.clear();
    for (int n : {30, 120, 260}) { std::vector<int> w(n + 1, 0); w[0] = n; ss.push_back(w); }            // wide
    for (int n : {20, 70}) { std::vector<int> w(n, 1); w.push_back(0); ss.push_back(w); }               // deep
    { std::vector<int> w; for (int i = 0; i < 15; i++) { w.push_back(12); for (int k = 0; k < 11; k++) w.push_back(0); } w.push_back(0); ss.push_back(w); }  // both
#endif
    auto& sh = ss[sx_pick("shape", ss.size())];
    std::vector<Model*> ns;
    Model* root = model_of(sh, ns);
    for (auto m : ns) {
        if (sx_pick("prefix", ns.size() > 8 ? 1 : 2)) { m->tag = "m:"; m->text = "t"; }   // name space prefix
#ifdef LONG
        m->tag += m == ns.back() ? (char)sx_u8("tag") : 'a';
#else
        m->tag += (char)sx_u8("tag");
#endif
    }
    CmmlToken* t = build(root);
    std::vector<const CmmlToken*> seen;
    t->foreachSubexpression([&](const CmmlToken* x) { seen.push_back(x); });
    sx_assert(seen.size() == ns.size(), "every node is visited exactly once");
    sx_assert(t->isRoot(), "root");
    for (size_t i = 0; i < ns.size(); i++) {
        CmmlToken* x = ns[i]->tok;
        size_t n = 0;
        for (size_t j = 0; j < seen.size(); j++) {
            if (seen[j] == x) n++;
            if (seen[j] == x->getParentNode()) { size_t k = 0; while (seen[k] != x) k++; sx_assert(j < k, "parents are visited before their children"); }
        }
        sx_assert(n == 1, "every node is visited exactly once");
        sx_assert(follow(t, x->getXpath()) == x, "the position path leads to the node");
        sx_assert(x->getXpath() == "/*[1]" + x->getXpathRelative(), "relative position");
#ifndef LONG   // follows from the paths leading to the nodes
        for (size_t j = 0; j < i; j++) sx_assert(ns[j]->tok->getXpath() != x->getXpath(), "different nodes have different positions");
#endif
        sx_assert(x->getExprSize() == size_of(ns[i]), "size");
        sx_assert(x->getExprDepth() == depth_of(ns[i]), "depth");
        sx_assert(x->getArity() == ns[i]->kids.size(), "number of arguments");
        sx_assert(x->getParentNode() == (ns[i]->parent ? ns[i]->parent->tok : nullptr), "parent");
        sx_assert(x->isRoot() == (i == 0), "only the root is the root");
        size_t k = 0;
        for (auto c : x->getChildNodes()) sx_assert(c == ns[i]->kids[k++]->tok, "children in order");
        std::string want = ns[i]->tag.size() > 2 ? ns[i]->tag.substr(2) : ns[i]->tag;
        sx_assert(same_bytes(x->getTag(), want), "tag without name space prefix");
        // a subtree enumerates exactly itself
        size_t cnt = 0; bool in = true;
        x->foreachSubexpression([&](const CmmlToken* y) { cnt++; const CmmlToken* z = y; while (z && z != x) z = z->getParentNode(); in = in && z == x; });
        sx_assert(in && cnt == size_of(ns[i]), "a subtree enumerates exactly itself");
    }
#ifdef LONG
    if (root->kids.size() == 1) sx_reach("deep"); else if (depth_of(root) == 1) sx_reach("wide"); else sx_reach("both");
#else
    if (sh.size() == 13) sx_reach("wide"); else if (depth_of(root) == NT - 1) sx_reach("deep");
#endif
    delete t;
}
