// P09: with renaming of identifiers, same encoding exactly if the terms are equal up to a consistent one-to-one renaming.
#include "cmml.hpp"
#include "mws/index/ExpressionEncoder.hpp"
using namespace mws::index;
#ifndef NA_
#define NA_ 3
#endif
#ifndef NB_
#define NB_ 3
#endif
static void label(std::vector<Model*>& ns, const std::vector<int>& sh) {
    for (size_t i = 0; i < ns.size(); i++) {
        Model* m = ns[i];
#ifdef STAR
        int tg = i == 0 ? 2 : 0;
#else
        int tg = sx_pick("tag", sh[i] ? 3 : 2);
#endif
        switch (tg) {
        case 0: m->tag = "ci"; break;
        case 1: m->tag = "cn"; break;
        case 2: m->tag = "apply"; continue;
        }
#ifdef LENGTHS
        int n = sx_pick("len", 3);
#else
        int n = 1;
#endif
        for (int j = 0; j < n; j++) {
            uint8_t c = sx_u8("text");
            sx_assume(!is_space(c)); sx_assume(c != 'P'); sx_assume(c != 'p');
            m->text += (char)c;
        }
    }
}
static bool identifier(Model* m) {
    return m->tag == "ci" && m->text.size() <= 1 && !(m->parent && m->parent->tag == "apply" && m->pos == 1);
}
static bool eqv(const std::vector<encoded_token_t>& a, const std::vector<encoded_token_t>& b) {
    bool q = a.size() == b.size();
    for (size_t i = 0; q && i < a.size(); i++) q = (a[i].id == b[i].id) & (a[i].arity == b[i].arity);
    return q;
}
extern "C" void sx_main(void) {
#ifdef STAR
    std::vector<std::vector<int>> sa(1), sb(1);
    for (int i = 0; i <= STAR; i++) { sa[0].push_back(i ? 0 : STAR); sb[0].push_back(i ? 0 : STAR); }
#else
    auto sa = shapes(NA_, 3), sb = shapes(NB_, 3);
#endif
    std::vector<Model*> na, nb;
    auto& pa = sa[sx_pick("shapeA", sa.size())];
    auto& pb = sb[sx_pick("shapeB", sb.size())];
    Model* a = model_of(pa, na); Model* b = model_of(pb, nb);
    label(na, pa); label(nb, pb);
    // reference
    bool alpha = pa == pb;
    if (alpha) for (size_t i = 0; i < na.size(); i++) {
        Model *x = na[i], *y = nb[i];
        bool ix = identifier(x), iy = identifier(y);
        if (ix != iy) { alpha = false; break; }
        if (!ix) { if (x->tag != y->tag) { alpha = false; break; } alpha = alpha & same_bytes(x->text, y->text); continue; }
        for (size_t j = 0; j < i; j++)
            if (identifier(na[j])) alpha = alpha & (same_bytes(na[j]->text, x->text) == same_bytes(nb[j]->text, y->text));
    }
    MeaningDictionary dict;
    ExpressionEncoder::Config cfg;
    cfg.renameCi = true;
    std::vector<encoded_token_t> ea, eb, qb;
    CmmlToken *ta = build(a), *tb = build(b);
    HarvestEncoder h1(&dict), h2(&dict);
    QueryEncoder q(&dict);
    sx_assert(h1.encode(cfg, ta, &ea, nullptr) == 0, "encoded");
    int rq = q.encode(cfg, tb, &qb, nullptr);
    sx_assert(h2.encode(cfg, tb, &eb, nullptr) == 0, "encoded");
    bool eq = eqv(ea, eb);
    sx_assert(eq == alpha, "same encoding exactly if equal up to renaming");
    if (alpha) { sx_assert(rq == 0, "a renamed copy of an indexed term is a valid query"); sx_reach("equal up to renaming"); }
    if (rq == 0) sx_assert(eqv(qb, eb), "query and indexed term are renamed in the same way");
    if (alpha) { bool lit = true; for (size_t i = 0; i < na.size(); i++) lit = lit & same_bytes(na[i]->text, nb[i]->text); if (!lit) sx_reach("really renamed"); }
    sx_observe("eq", eq);
}
