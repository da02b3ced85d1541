// P08: what does not fit into a token is refused, what fits is kept apart.
#include "cmml.hpp"
#include "mws/index/ExpressionEncoder.hpp"
using namespace mws::index;
struct Tester {
    template <class D> static auto next(D& d, uint32_t v, int) -> decltype(d._nextId = v, bool()) { d._nextId = v; return true; }
    template <class D> static bool next(D& d, uint32_t v, long) { return false; }
};
extern "C" void sx_main(void) {
    MeaningDictionary dict;
    CmmlToken* t = CmmlToken::newRoot();
    t->setTag("apply");
    ExpressionEncoder::Config cfg;
    std::vector<encoded_token_t> code;
    HarvestEncoder he(&dict); QueryEncoder qe(&dict);
    int what = sx_pick("what", 5);
    bool query = sx_pick("query", 2);
    ExpressionEncoder* enc = query ? (ExpressionEncoder*)&qe : (ExpressionEncoder*)&he;
    if (query) { dict.put("apply#"); dict.put("c#"); }
    if (what == 0) {   // arity
        uint32_t n = 253 + sx_pick("n", 6);
        for (uint32_t i = 0; i < n; i++) t->newChildNode()->setTag("c");
        int rc = enc->encode(cfg, t, &code, nullptr);
        sx_assert((rc == 0) == (n <= 255), "exactly the arities that fit are encoded");
        if (rc == 0) { sx_assert(code.size() == n + 1 && code[0].arity == n, "arity"); sx_reach("arity kept"); }
        else sx_reach("arity refused");
    } else if (what <= 3) {   // named variables, anonymous variables, ranges
        uint32_t n = 29 + sx_pick("n", 6);
        for (uint32_t i = 0; i < n; i++) {
            CmmlToken* c = t->newChildNode();
            c->setTag(what == 3 ? "mws:range" : "mws:qvar");
            if (what == 1) { std::string nm = "v"; nm += (char)('!' + i); c->addAttribute("name", nm); }
        }
        int rc = enc->encode(cfg, t, &code, nullptr);
        if (rc == 0) {
            sx_assert(code.size() == n + 1, "one token each");
            for (uint32_t i = 1; i <= n; i++) {
                if (what == 3) sx_assert(encoded_token_is_range(code[i]), "a range");
                else sx_assert(encoded_token_is_var(code[i]), "a variable");
                for (uint32_t j = 1; j < i; j++) sx_assert(code[i].id != code[j].id, "kept apart");
            }
            sx_reach("many kept apart");
        } else { sx_reach("too many refused"); sx_assert(n > 31, "31 variables or ranges always fit"); }
    } else {           // number of symbols
        uint32_t next = sx_u32("next");
        sx_assume(next > 2); sx_assume(next <= (1u << 25));
        if (!Tester::next(dict, next, 0)) return;
        t->appendTextContent("q", 1);
        if (query) dict.put("apply#q");
        int rc = enc->encode(cfg, t, &code, nullptr);
        if (rc == 0) { sx_assert(code[0].id == CONSTANT_ID_MIN + next, "id kept"); sx_reach("symbol kept"); }
        else { sx_assert(next > 0xffffffu - CONSTANT_ID_MIN, "refused only if out of ids"); }
    }
}
