// P08: two ground terms have the same encoding exactly if they are the same term; decoding; queries agree with harvests.
#include "cmml.hpp"
#include "mws/index/ExpressionEncoder.hpp"
using namespace mws::index;
#ifndef NA_
#define NA_ 3
#endif
#ifndef NB_
#define NB_ 3
#endif
static void label(std::vector<Model*>& ns) {
    for (auto m : ns) {
        switch (sx_pick("kind", 2)) {
        case 0: m->tag = "c"; m->tag += (char)sx_u8("tag");
                sx_assume(m->tag[1] >= 'a'); sx_assume(m->tag[1] <= 'z'); break;
        case 1: m->tag = "mtext"; break;
        }
        uint8_t c = sx_u8("text");
        sx_assume(!is_space(c));
        m->text = std::string(1, (char)c);
    }
}
static std::string meaning(Model* m) { return m->tag == "mtext" ? std::string("mtext#") : m->tag + "#" + m->text; }
static bool same_label(Model* a, Model* b) {
    bool mt = a->tag.size() == 5, mu = b->tag.size() == 5;
    if (mt != mu) return false;
    if (mt) return true;   // the text of mtext is ignored by design
    return same_bytes(a->tag, b->tag) & same_bytes(a->text, b->text);
}
extern "C" void sx_main(void) {
    auto sa = shapes(NA_, 2), sb = shapes(NB_, 2);
    std::vector<Model*> na, nb;
    auto& pa = sa[sx_pick("shapeA", sa.size())];
    auto& pb = sb[sx_pick("shapeB", sb.size())];
    Model* a = model_of(pa, na); Model* b = model_of(pb, nb);
    label(na); label(nb);
    MeaningDictionary dict;
    ExpressionEncoder::Config cfg;
    std::vector<encoded_token_t> ea, eb, qb;
    CmmlToken *ta = build(a), *tb = build(b);
    HarvestEncoder h1(&dict), h2(&dict);
    sx_assert(h1.encode(cfg, ta, &ea, nullptr) == 0, "a ground term is encoded");
    bool known = true, same = pa == pb;
    for (size_t j = 0; j < nb.size(); j++) {
        bool k = false;
        for (auto x : na) k = k | same_label(nb[j], x);
        known = known & k;
    }
    if (same) for (size_t j = 0; j < nb.size(); j++) same = same & same_label(na[j], nb[j]);
    // before the second term is indexed: as a query it is refused exactly if it has an unknown symbol
    ExpressionInfo info;
    QueryEncoder qe(&dict);
    int rq = qe.encode(cfg, tb, &qb, &info);
    sx_assert((rq == 0) == known, "a query is refused exactly if it uses an unknown symbol");
    if (!known) sx_reach("unknown symbol");
    sx_assert(h2.encode(cfg, tb, &eb, nullptr) == 0, "a ground term is encoded");
    sx_assert(ea.size() == na.size(), "one token per node");
    bool eq = ea.size() == eb.size();
    for (size_t i = 0; eq && i < ea.size(); i++) eq = (ea[i].id == eb[i].id) & (ea[i].arity == eb[i].arity);
    sx_assert(eq == same, "same encoding exactly if same term");
    if (same) sx_reach("same term");
    if (rq == 0) {
        bool q = qb.size() == eb.size();
        for (size_t i = 0; q && i < qb.size(); i++) q = (qb[i].id == eb[i].id) & (qb[i].arity == eb[i].arity);
        sx_assert(q, "a ground term has the same encoding as a query and as an indexed term");
        sx_assert(info.qvarNames.empty() && info.rangeBounds.empty(), "a ground term has no variables");
    }
    ExpressionDecoder dec(dict);
    for (size_t i = 0; i < eb.size(); i++) {
        sx_assert(eb[i].id >= CONSTANT_ID_MIN, "a symbol is encoded as a constant");
        sx_assert(eb[i].arity == pb[i], "arity of the node");
        sx_assert(same_bytes(dec.getMeaning(eb[i].id), meaning(nb[i])), "decoding gives back the symbol");
    }
    for (size_t i = 0; i < ea.size(); i++) sx_assert(same_bytes(dec.getMeaning(ea[i].id), meaning(na[i])), "decoding gives back the symbol of the first term");
    sx_observe("eq", eq);
}
