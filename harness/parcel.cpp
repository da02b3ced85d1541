// P12: stored records: encoding and decoding, malformed bytes.
#include "cmml.hpp"
#include "fakelevel.hpp"
#include "mws/types/FormulaPath.hpp"
#include "mws/dbc/LevCrawlDb.hpp"
#include "mws/dbc/LevFormulaDb.hpp"
using namespace common::types;
#ifndef LEN
#define LEN 28
#endif
#ifdef LONG
static std::string text() { static const int L[] = {0, 127, 128, 255, 256, 65535, 65536, 70000}; static int left = 2; int n = left-- > 0 ? L[sx_pick("len", 8)] : 3; std::string s(n, 'y'); if (n) { s[n - 1] = (char)sx_u8("byte"); s[n / 2] = (char)sx_u8("byte"); if (n > 255) sx_reach("long"); } return s; }
#else
static std::string text() { std::string s; int n = sx_pick("len", 3); for (int i = 0; i < n; i++) s += (char)sx_u8("byte"); return s; }
#endif
extern "C" void sx_main(void) {
    #ifdef LONG
    switch (0) {
#else
    switch (sx_pick("what", 3)) {
#endif
    case 0: {   // round trip
        std::string a = text(); mws::types::FormulaPath p(text(), text());
        ParcelAllocator al; al.reserve(a); al.reserve(p);
        ParcelEncoder e(al); e.encode(a); e.encode(p);
        sx_assert(e.getSize() == al.getSize(), "size");
        ParcelDecoder d(e.getData(), e.getSize());
        std::string b; mws::types::FormulaPath q;
        d.decode(&b); d.decode(&q);
        sx_assert(same_bytes(a, b) && same_bytes(p.xmlId, q.xmlId) && same_bytes(p.xpath, q.xpath), "decoding gives back what was encoded");
        sx_reach("round trip");
        break; }
    case 1: {   // arbitrary bytes
        size_t n = sx_pick("size", LEN + 1);
        char* buf = new char[n];
        if (n) sx_sym(buf, n, "parcel");
        ParcelDecoder d(buf, n);
        std::string a, b; bool threw = false;
        try { d.decode(&a); d.decode(&b); } catch (std::exception&) { threw = true; }
        if (threw) sx_reach("rejected");
        else { sx_assert(a.size() + b.size() + 16 <= n, "the strings lie inside the parcel"); sx_reach("accepted"); }
        delete[] buf;
        break; }
    case 2: {   // arbitrary bytes in the databases
        size_t n = sx_pick("size", 14);
        std::string v;
        for (size_t i = 0; i < n; i++) v += (char)sx_u8("value");
        { mws::dbc::LevCrawlDb c; c.create_new("c", false); }
        (*fl_dbs["c"])["7"] = v;
        mws::dbc::LevCrawlDb c; c.open("c");
        bool threw = false; std::string s;
        try { s = c.getData(7); } catch (std::exception&) { threw = true; }
        if (!threw) { sx_assert(s.size() + 8 <= n, "the data lies inside the record"); sx_reach("document read"); } else sx_reach("document rejected");
        { mws::dbc::LevFormulaDb f; f.create_new("f", false); f.insertFormula(3, 1, mws::types::FormulaPath("a", "b")); }
        fl_dbs["f"]->begin()->second = v;
        mws::dbc::LevFormulaDb f; f.open("f");
        int calls = 0;
        int rc = f.queryFormula(3, 0, 10, [&](const mws::dbc::CrawlId&, const mws::types::FormulaPath&) { calls++; return 0; });
        sx_assert(rc == -1 && calls == 0, "a malformed formula record is reported");   // three strings need 24 bytes
        break; }
    }
}
