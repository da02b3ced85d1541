// P10: the symbol dictionary under every history of put/get, saved and loaded again.
#include <sx.h>
#include <fstream>
#include <string>
#include <vector>
#include "common/types/IdDictionary.hpp"
#include "mws/index/MeaningDictionary.hpp"
using mws::index::MeaningDictionary;
using std::string;
#ifndef NOPS
#define NOPS 3
#endif
#ifndef LEN
#define LEN 2
#endif
static string key(const char* name) {
    int n = 1 + sx_pick("len", LEN);
    string s;
    for (int i = 0; i < n; i++) { unsigned char c = sx_u8(name); sx_assume(c != 0); s.push_back((char)c); }
    return s;
}
static bool eq(const string& a, const string& b) {
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
    return r;
}
extern "C" void sx_main() {
    MeaningDictionary d;
    std::vector<string> model;
    for (int i = 0; i < NOPS; i++) {
        string k = key("key");
        unsigned want = 0;
        for (size_t j = 0; j < model.size(); j++) if (eq(model[j], k)) want = j + 1;
        if (sx_pick("put", 2)) {
            if (!want) { model.push_back(k); want = model.size(); } else sx_reach("put again");
            sx_assert(d.put(k) == want, "put gives a known symbol its id and a new symbol the next id");
        } else {
            if (!want) sx_reach("unknown");
            sx_assert(d.get(k) == want, "get gives the id of the symbol, and the unknown id for a symbol never put");
        }
        for (size_t j = 0; j < model.size(); j++) sx_assert(d.get(model[j]) == j + 1, "ids never change");
    }
    MeaningDictionary::ReverseLookupTable t = d.getReverseLookupTable();
    for (size_t j = 0; j < model.size(); j++) sx_assert(eq(t.get(j + 1), model[j]), "the reverse table gives the symbol of an id");
    bool thrown = false;
    try { t.get(model.size() + 1); } catch (std::out_of_range&) { thrown = true; }
    sx_assert(thrown, "the reverse table has no entry for an id never issued");
    int medium = sx_pick("medium", 3);
    if (medium == 1) {
        std::ofstream bad("/dev/full");
        int r = d.save(bad);
        sx_assert(model.empty() ? r == 0 : r != 0, "a save that could not be written is reported");
        if (!model.empty()) sx_reach("save failed");
        return;
    }
    if (medium == 2) {
        thrown = false;
        try { MeaningDictionary x("/nonexistent/dict"); } catch (std::runtime_error&) { thrown = true; }
        sx_assert(thrown, "a dictionary that cannot be read is reported");
        return;
    }
    {
        std::ofstream out("dict");
        sx_assert(d.save(out) == 0, "saving succeeds");
    }
    MeaningDictionary e("dict");
    for (size_t j = 0; j < model.size(); j++) sx_assert(e.get(model[j]) == j + 1, "a loaded dictionary gives every symbol its old id");
    MeaningDictionary::ReverseLookupTable u = e.getReverseLookupTable();
    for (size_t j = 0; j < model.size(); j++) sx_assert(eq(u.get(j + 1), model[j]), "a loaded dictionary names every id as before");
    thrown = false;
    try { u.get(model.size() + 1); } catch (std::out_of_range&) { thrown = true; }
    sx_assert(thrown, "a loaded dictionary has no other ids");
    string k = key("other");
    unsigned want = 0;
    for (size_t j = 0; j < model.size(); j++) if (eq(model[j], k)) want = j + 1;
    sx_assert(e.get(k) == want, "a loaded dictionary knows no other symbol");
    sx_assert(e.put(k) == (want ? want : model.size() + 1), "a loaded dictionary goes on with the next id");
    if (model.size() == NOPS) sx_reach("all different, reloaded");
}
