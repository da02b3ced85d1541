// P08, P09: long symbols; terms with many symbols; terms with many identifiers to rename.
#include "cmml.hpp"
#include "mws/index/ExpressionEncoder.hpp"
using namespace mws::index;
typedef std::vector<encoded_token_t> Enc;
static bool eqv(const Enc& a, const Enc& b) {
    bool q = a.size() == b.size();
    for (size_t i = 0; q && i < a.size(); i++) q = (a[i].id == b[i].id) & (a[i].arity == b[i].arity);
    return q;
}
static CmmlToken* leaf(CmmlToken* p, const std::string& tag, const std::string& text) {
    CmmlToken* c = p ? p->newChildNode() : CmmlToken::newRoot();
    c->setTag(tag); c->appendTextContent(text.data(), text.size());
    return c;
}
static std::string name(int i) { char b[16]; int n = 0; do { b[n++] = 'a' + i % 7; i /= 7; } while (i); return std::string(b, n); }
extern "C" void sx_main(void) {
    MeaningDictionary dict;
    ExpressionEncoder::Config cfg;
    Enc ea, eb, qb;
    HarvestEncoder h1(&dict), h2(&dict);
    QueryEncoder q(&dict);
#ifdef RENAME
    // f(x0, .., xn-1, xi) and f(y0, .., yn-1, yj): equal up to renaming exactly if i = j
    static const int NS[] = {9, 10, 11, 26, 27, 60, 99, 100, 101, 120};
    int n = NS[sx_pick("count", 10)];
    cfg.renameCi = true;
    int i = sx_pick("i", 3), j = sx_pick("j", 3), at[] = {0, n / 10, n - 1};
    CmmlToken *a = CmmlToken::newRoot(), *b = CmmlToken::newRoot();
    a->setTag("apply"); b->setTag("apply");
    leaf(a, "ci", "f"); leaf(b, "ci", "f");
    for (int k = 0; k < n; k++) { leaf(a, "ci", std::string(1, (char)(128 + k))); leaf(b, "ci", std::string(1, (char)(250 - k))); }
    leaf(a, "ci", std::string(1, (char)(128 + at[i]))); leaf(b, "ci", std::string(1, (char)(250 - at[j])));
    sx_assert(h1.encode(cfg, a, &ea, nullptr) == 0, "encoded");
    sx_assert(q.encode(cfg, b, &qb, nullptr) == 0, "the identifiers of a query are renamed");
    sx_assert(h2.encode(cfg, b, &eb, nullptr) == 0, "encoded");
    bool alpha = at[i] == at[j];
    sx_assert(eqv(ea, eb) == alpha && eqv(qb, eb), "same encoding exactly if equal up to renaming");
    for (int k = 2; k <= n + 1; k++) for (int l = 2; l < k; l++) sx_assert(ea[k].id != ea[l].id, "different identifiers stay different");
    if (alpha) sx_reach("equal up to renaming"); else sx_reach("different");
#else
    if (sx_pick("many", 2)) { // f(c0, .., cn-1) and the same with one arbitrary symbol
        static const int NS[] = {10, 30, 60, 100, 200, 254};
        int n = NS[sx_pick("count", 6)], at = n - 1 - 3 * sx_pick("at", 3);
        unsigned char x = sx_u8("symbol"); sx_assume(x >= 'a'); sx_assume(x <= 'z');
        CmmlToken *a = CmmlToken::newRoot(), *b = CmmlToken::newRoot();
        a->setTag("apply"); b->setTag("apply");
        for (int k = 0; k < n; k++) { leaf(a, "ci", name(k)); leaf(b, "ci", k == at ? std::string(1, (char)x) + name(k).substr(1) : name(k)); }
        sx_assert(h1.encode(cfg, a, &ea, nullptr) == 0 && h2.encode(cfg, b, &eb, nullptr) == 0, "encoded");
        sx_assert(eqv(ea, eb) == ((char)x == name(at)[0]), "same encoding exactly if same term");
        for (int k = 1; k <= n; k++) for (int l = 1; l < k; l++) sx_assert(ea[k].id != ea[l].id, "different symbols stay different");
        sx_reach("many");
        return;
    }
    static const int LS[] = {7, 14, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096};
    int l = LS[sx_pick("length", sizeof LS / sizeof *LS)];
    std::string s(l, 'a'), u = s;
    unsigned char c = sx_u8("last"); sx_assume(!is_space(c));
    switch (sx_pick("at", 4)) { case 0: u[l - 1] = (char)c; break; case 1: u += (char)c; break; case 2: u = (char)c + u; break; case 3: u[l / 2] = (char)c; break; }
    bool tag = sx_pick("tag", 2);
    if (tag) { sx_assume(c >= 'a'); sx_assume(c <= 'z'); }
    CmmlToken *a = leaf(nullptr, tag ? s : "ci", tag ? "x" : s), *b = leaf(nullptr, tag ? u : "ci", tag ? "x" : u);
    bool same = same_bytes(s, u);
    sx_assert(h1.encode(cfg, a, &ea, nullptr) == 0, "encoded");
    sx_assert((q.encode(cfg, b, &qb, nullptr) == 0) == same, "a query is refused exactly if it uses an unknown symbol");
    sx_assert(h2.encode(cfg, b, &eb, nullptr) == 0, "encoded");
    sx_assert(eqv(ea, eb) == same, "same encoding exactly if same term");
    ExpressionDecoder dec(dict);
    sx_assert(same_bytes(dec.getMeaning(eb[0].id), (tag ? u : std::string("ci")) + "#" + (tag ? std::string("x") : u)), "decoding gives back the symbol");
    if (same) sx_reach("same long symbol"); else sx_reach("different long symbols");
#endif
}
