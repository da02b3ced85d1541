// P12: the document store gives back exactly what was stored; both backends.
#include "cmml.hpp"
#include "fakelevel.hpp"
#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/LevCrawlDb.hpp"
using namespace mws;
#ifndef NR
#define NR 3
#endif
#ifndef LEN
#define LEN 2
#endif
extern "C" void sx_main(void) {
    bool disk = sx_pick("disk", 2);
    dbc::MemCrawlDb mem;
    {
        dbc::LevCrawlDb lev;
        if (disk) lev.create_new("db", sx_pick("delete", 2));
        dbc::CrawlDb* db = disk ? (dbc::CrawlDb*)&lev : (dbc::CrawlDb*)&mem;
        std::vector<std::string> data; std::vector<dbc::CrawlId> ids;
        #ifdef MANY
        int n = 5 + 6 * sx_pick("records", 2), early = sx_pick("early", 2), pre = 0;
        static const int P[] = {0, 90, 120, 250}; pre = P[sx_pick("earlier", 4)];
        static const size_t L[] = {0, 127, 128, 255, 256, 4095, 4096, 65535, 65536, 70000, 1};
#else
        int n = sx_pick("records", NR + 1), early = sx_pick("early", 2);
        int pre = n == 1 ? 9 * sx_pick("earlier", 2) : 0;   // ids with two digits
#endif
        for (int i = 0; i < pre; i++) { data.push_back("e"); ids.push_back(db->putData("e")); }
        for (int i = 0; i < n; i++) {
#ifdef MANY
            std::string s(L[i], (char)('a' + i)); if (L[i]) { s[L[i] - 1] = (char)sx_u8("byte"); s[L[i] / 2] = (char)sx_u8("byte"); }
            bool failing = disk && i == 3;
#else
            std::string s; int l = sx_pick("len", LEN + 1);
            for (int j = 0; j < l; j++) s += (char)sx_u8("byte");
            bool failing = disk && sx_pick("fail", 2);
#endif
            if (failing) fl_fail_put = 0;
            bool threw = false; dbc::CrawlId id = 0;
            try { id = db->putData(s); } catch (std::exception&) { threw = true; }
            fl_fail_put = -1;
            sx_assert(threw == failing, "a failed store is reported");
            if (threw) { sx_reach("store failed"); continue; }
            sx_assert(id != dbc::CRAWLID_NULL, "an id is issued");
            for (auto x : ids) sx_assert(x != id, "every record gets its own id");
            ids.push_back(id); data.push_back(s);
            if (early) sx_assert(same_bytes(db->getData(ids[0]), data[0]), "record of the first id, read before others are stored");
        }
        for (int again = 0; again < 2; again++) {
            for (size_t i = 0; i < ids.size(); i++) {
                bool threw = false; std::string s;
                try { s = db->getData(ids[i]); } catch (std::exception&) { threw = true; }
                sx_assert(!threw && same_bytes(s, data[i]), "the record of the id");
            }
            // an id that was never issued
            static const uint32_t others[] = {0, 1000000u, 4294967295u, 5}; uint32_t other = others[sx_pick("other", 4)];
            bool issued = false;
            for (auto x : ids) issued = issued | (x == other);
            bool threw = false; std::string s;
            try { s = db->getData(other); } catch (std::exception&) { threw = true; }
            sx_assert(threw == !issued, "an id that was never issued is an error");
            if (threw) sx_reach("unknown id");
            if (!disk) break;
            // on disk: also after the store was closed and opened again
            if (again == 0) {
                static dbc::LevCrawlDb* l2; l2 = new dbc::LevCrawlDb();
                l2->open("db");
                db = l2;
                sx_reach("reopened");
            } else delete db;
        }
        sx_observe("records", ids.size());
    }
    sx_assert(fl_open == 0, "databases are closed");
    bool threw = false;
    dbc::LevCrawlDb none;
    try { none.open("absent"); } catch (std::exception&) { threw = true; }
    sx_assert(threw, "a missing database is an error");
}
