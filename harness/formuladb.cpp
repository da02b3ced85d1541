// P11: the formula database gives back exactly what was stored, in order, windowed; both backends.
#include "cmml.hpp"
#include "fakelevel.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/dbc/LevFormulaDb.hpp"
using namespace mws;
#ifndef NI
#define NI 2
#endif
struct Rec { uint32_t id, crawl; std::string xml, xpath; };
static std::string text(const char* nm, int max) { std::string s; int n = sx_pick("len", max + 1); for (int i = 0; i < n; i++) s += (char)sx_u8(nm); return s; }
extern "C" void sx_main(void) {
    static const uint32_t ids[] = {1, 10, 11, 2, 4294967295u};
    static const uint32_t crawls[] = {0, 10, 4294967295u};
    std::vector<Rec> recs;
    bool disk = sx_pick("disk", 2);
    dbc::MemFormulaDb mem; dbc::LevFormulaDb lev;
    if (disk) lev.create_new("db", sx_pick("delete", 2));
    dbc::FormulaDb* db = disk ? (dbc::FormulaDb*)&lev : (dbc::FormulaDb*)&mem;
    // earlier entries, so that the per-database counter has one, two or three digits
#ifdef ORDER
#ifdef MANY
    int pre = 300;
#else
    int pre = 6 + 90 * sx_pick("earlier", 2);
#endif
    for (int i = 0; i < pre; i++) {
        Rec r; r.id = i % 10 ? 11 : 1; r.crawl = i; r.xml = "e"; r.xpath = "/";
#ifdef MANY
        if (i == 200) { r.xml = std::string(300, 'l'); r.xml[299] = (char)sx_u8("xml"); r.xpath = std::string(256, 'p'); r.xpath[255] = (char)sx_u8("xpath"); }
        if (i == 201) { r.xml = std::string(70000, 'l'); r.xml[69999] = (char)sx_u8("xml"); r.xpath = std::string(128, 'p'); }
#endif
        sx_assert(db->insertFormula(r.id, r.crawl, types::FormulaPath(r.xml, r.xpath)) == 0, "stored");
        recs.push_back(r);
    }
#ifdef MANY
    int n = 2;
#else
    int n = 5;
#endif
#else
    int n = sx_pick("inserts", NI + 1);
#endif
    for (int i = 0; i < n; i++) {
        Rec r;
#ifdef ORDER
        r.id = sx_pick("id", 2) ? 10 : 1; r.crawl = 1000 + i; r.xml = "f"; r.xpath = "/*[1]";
#else
        r.id = ids[sx_pick("id", 5)]; r.crawl = crawls[sx_pick("crawl", i == 0 ? 3 : 1)];
        if (i == 0) { r.xml = text("xml", 2); r.xpath = text("xpath", 1); }
        else { r.xml = std::string(1, (char)sx_u8("xml")); }
#endif
        sx_assert(db->insertFormula(r.id, r.crawl, types::FormulaPath(r.xml, r.xpath)) == 0, "stored");
        recs.push_back(r);
    }
#ifdef ORDER
    static const uint32_t ask[] = {1, 10, 11, 2};
    uint32_t id = ask[sx_pick("ask", 4)];
#else
    uint32_t id = ids[sx_pick("ask", 5)];
#endif
    std::vector<Rec> want;
    for (auto& r : recs) if (r.id == id) want.push_back(r);
#ifdef ORDER
    uint32_t w = want.size(), los[] = {0, w > 3 ? w - 3 : 0, w, 4000000000u, 100, 127, 128, 200, 255, 256}, cs[] = {1, 2, 1000, 4294967295u, 100, 127, 128, 255, 256};
#ifdef MANY
    uint32_t lo = los[sx_pick("first", 10)], cnt = cs[sx_pick("count", 9)];
#else
    uint32_t lo = los[sx_pick("first", 4)], cnt = cs[sx_pick("count", 4)];
#endif
#else
    uint32_t lo = sx_u32("first"), cnt = sx_u32("count");
#endif
    uint64_t hi = (uint64_t)lo + cnt; if (hi > want.size()) hi = want.size();
    uint32_t stop = sx_pick("stop", 3);   // the callback fails at this entry (0: never)
    size_t got = 0;
    int rc = db->queryFormula(id, lo, cnt, [&](const dbc::CrawlId& c, const types::FormulaPath& p) {
        sx_assert(stop == 0 || got < stop, "no entry is delivered after the callback failed");
        uint64_t k = lo + (uint64_t)got;
        sx_assert(k < hi, "no entry outside the window");
        k = sx_concretize(k);
        sx_assert(c == want[k].crawl, "document of the occurrence, in insertion order");
        sx_assert(same_bytes(p.xmlId, want[k].xml) && same_bytes(p.xpath, want[k].xpath), "position of the occurrence");
        got++;
        return got == stop ? -1 : 0;
    });
    uint64_t all = hi > lo ? hi - lo : 0;
    if (stop && all >= stop) { sx_assert(rc == -1 && got == stop, "a failing callback stops the query with an error"); sx_reach("stopped"); }
    else { sx_assert(rc == 0 && got == all, "every entry of the window is delivered"); sx_reach(disk ? "disk" : "memory"); }
    if (all >= 2 && disk) sx_reach("several on disk");
    sx_observe("got", got);
    sx_assert(fl_iters == 0, "cursors are released");
}
