// P08: variables, ranges and constants are never confused, and equal names mean equal ids.
#include "cmml.hpp"
#include "mws/index/ExpressionEncoder.hpp"
using namespace mws::index;
#ifndef NT
#define NT 4
#endif
enum { CONSTANT, NAMED_ATTR, NAMED_TEXT, ANON, RANGE };
extern "C" void sx_main(void) {
    auto ss = shapes(NT, 3);
    std::vector<Model*> ns;
    auto& sh = ss[sx_pick("shape", ss.size())];
    Model* root = model_of(sh, ns);
    std::vector<int> kind;
    MeaningDictionary dict;
    dict.put("c#a");   // a known symbol
    for (auto m : ns) {
        int k = sx_pick("kind", 5);
        kind.push_back(k);
        m->tag = k == CONSTANT ? "c" : k == RANGE ? "mws:range" : "mws:qvar";
        uint8_t c = sx_u8("name");
        sx_assume(!is_space(c));
        if (k == CONSTANT) m->text = "a";
        if (k == NAMED_TEXT) m->text = std::string(1, (char)c);
        if (k == NAMED_ATTR) { m->hasName = true; m->name = std::string(1, (char)c); m->text = "zz"; }
    }
    CmmlToken* t = build(root);
    ExpressionEncoder::Config cfg;
    std::vector<encoded_token_t> code;
    ExpressionInfo info;
    bool query = sx_pick("query", 2);
    HarvestEncoder he(&dict); QueryEncoder qe(&dict);
    int rc = (query ? (ExpressionEncoder*)&qe : (ExpressionEncoder*)&he)->encode(cfg, t, &code, sx_pick("info", 2) ? &info : nullptr);
    sx_assert(rc == 0, "encoded");
    // expected: pre-order of the nodes that are not below a variable or range
    std::vector<size_t> seq;
    for (size_t i = 0; i < ns.size(); i++) {
        bool below = false;
        for (Model* p = ns[i]->parent; p; p = p->parent) if (p->tag[0] == 'm') below = true;
        if (!below) seq.push_back(i);
    }
    sx_assert(code.size() == seq.size(), "one token per node, variables and ranges are leaves");
    for (size_t j = 0; j < seq.size(); j++) {
        int k = kind[seq[j]]; encoded_token_t e = code[j];
        bool var = encoded_token_is_var(e), range = encoded_token_is_range(e);
        sx_assert(var == (k == NAMED_ATTR || k == NAMED_TEXT || k == ANON), "exactly the variables are encoded as variables");
        sx_assert(range == (k == RANGE), "exactly the ranges are encoded as ranges");
        sx_assert(e.id != 0, "an id");
        if (k == CONSTANT) sx_assert(e.arity == (unsigned)sh[seq[j]], "arity of the node"); else sx_assert(e.arity == 0, "no arguments");
        if (var) sx_assert((k == ANON) == (encoded_token_is_anon_var(e) != 0), "anonymous exactly if it has no name");
        for (size_t i = 0; i < j; i++) {
            int k2 = kind[seq[i]];
            bool n1 = k == NAMED_ATTR || k == NAMED_TEXT, n2 = k2 == NAMED_ATTR || k2 == NAMED_TEXT;
            if (n1 && n2) {
                Model *x = ns[seq[i]], *y = ns[seq[j]];
                const std::string &u = k2 == NAMED_ATTR ? x->name : x->text, &v = k == NAMED_ATTR ? y->name : y->text;
                sx_assert((code[i].id == e.id) == same_bytes(u, v), "named variables have the same id exactly if they have the same name");
                sx_reach("two named variables");
            } else if (k == CONSTANT && k2 == CONSTANT) sx_assert(code[i].id == e.id, "same symbol");
            else sx_assert(code[i].id != e.id, "different kinds and anonymous variables have different ids");
        }
    }
    ExpressionDecoder dec(dict);
    for (size_t j = 0; j < seq.size(); j++) {
        int k = kind[seq[j]];
        std::string s = dec.getMeaning(code[j].id);
        if (k == CONSTANT) sx_assert(s == "c#a", "decoding a constant");
        if (k == RANGE) sx_assert(s.compare(0, 6, "range#") == 0, "decoding a range");
        if (k == ANON) sx_assert(s.compare(0, 10, "anonymous_") == 0, "decoding an anonymous variable");
        if (k == NAMED_ATTR || k == NAMED_TEXT) sx_assert(s.compare(1, 4, "var#") == 0, "decoding a named variable");
    }
    // the description of the variables and ranges
    if (!info.qvarNames.empty() || !info.rangeBounds.empty()) {
        size_t nv = 0, nr = 0;
        for (size_t j = 0; j < seq.size(); j++) {
            int k = kind[seq[j]];
            if (k == NAMED_ATTR || k == NAMED_TEXT) {
                sx_assert(nv < info.qvarNames.size() && nv < info.qvarXpaths.size(), "every named variable is described");
                Model* m = ns[seq[j]];
                sx_assert(same_bytes(info.qvarNames[nv], k == NAMED_ATTR ? m->name : m->text), "name of the variable");
                sx_assert(info.qvarXpaths[nv] == m->tok->getXpathRelative(), "position of the variable");
                nv++;
            }
            if (k == RANGE) { nr++; sx_assert(info.rangeBounds.count(code[j].id) == 1, "every range has its bounds"); }
        }
        sx_assert(nv == info.qvarNames.size() && nv == info.qvarXpaths.size() && nr == info.rangeBounds.size(), "nothing else is described");
        sx_reach("described");
    }
    if (query) sx_reach("query"); else sx_reach("harvest");
}
