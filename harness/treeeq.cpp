// P13: structural equality, text and attributes.
#include "cmml.hpp"
#ifndef NA_
#define NA_ 3
#endif
#ifndef NB_
#define NB_ 3
#endif
enum { CONSTANT, MTEXT, VAR_TEXT, VAR_ATTR, RANGE };
static void label(std::vector<Model*>& ns, std::vector<int>& kind) {
    for (auto m : ns) {
        int k = sx_pick("kind", 5);
        kind.push_back(k);
        uint8_t c = sx_u8("text");
        sx_assume(!is_space(c));
        m->tag = k == CONSTANT ? "cn" : k == MTEXT ? "mtext" : k == RANGE ? "mws:range" : "mws:qvar";
        if (k == VAR_ATTR) { m->hasName = true; m->name = std::string(1, (char)c); m->text = "q"; }
        else m->text = std::string(1, (char)c);
    }
}
static size_t idx(std::vector<Model*>& ns, Model* m) { for (size_t i = 0;; i++) if (ns[i] == m) return i; }
static bool equal(Model* a, Model* b, std::vector<Model*>& na, std::vector<Model*>& nb, std::vector<int>& ka, std::vector<int>& kb) {
    int x = ka[idx(na, a)], y = kb[idx(nb, b)];
    bool vx = x == VAR_TEXT || x == VAR_ATTR, vy = y == VAR_TEXT || y == VAR_ATTR;
    if (vx && vy) return same_bytes(x == VAR_ATTR ? a->name : a->text, y == VAR_ATTR ? b->name : b->text);
    if (x != y || x == RANGE) return false;      // ranges are never equal
    bool eq = x == MTEXT || same_bytes(a->text, b->text);
    if (a->kids.size() != b->kids.size()) return false;
    for (size_t i = 0; i < a->kids.size(); i++) eq = eq & equal(a->kids[i], b->kids[i], na, nb, ka, kb);
    return eq;
}
extern "C" void sx_main(void) {
    auto sa = shapes(NA_, 2), sb = shapes(NB_, 2);
    std::vector<Model*> na, nb; std::vector<int> ka, kb;
    Model* a = model_of(sa[sx_pick("shapeA", sa.size())], na);
    Model* b = model_of(sb[sx_pick("shapeB", sb.size())], nb);
    label(na, ka); label(nb, kb);
    CmmlToken *ta = build(a), *tb = build(b);
    bool eq = ta->equals(tb), rev = tb->equals(ta);
    bool want = equal(a, b, na, nb, ka, kb);
    sx_assert(eq == want, "equal exactly if the same expression");
    sx_assert(rev == want, "equality is symmetric");
    if (want) sx_reach("equal"); else sx_reach("different");
    sx_observe("eq", eq);
}
