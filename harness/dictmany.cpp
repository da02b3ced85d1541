// P10: dictionaries with many symbols and with long ones.
#include <sx.h>
#include <fstream>
#include <string>
#include <vector>
#include "common/types/IdDictionary.hpp"
#include "mws/index/MeaningDictionary.hpp"
using mws::index::MeaningDictionary;
using std::string;
static string name(int i) { char b[16]; int n = 0; do { b[n++] = '0' + i % 10; i /= 10; } while (i); return string(b, n) + "#"; }
extern "C" void sx_main() {
    MeaningDictionary d;
    std::vector<string> model;
    if (sx_pick("many", 2)) {
        static const int NS[] = {10, 16, 100, 128, 255, 256, 257, 300};
        int n = NS[sx_pick("count", 8)];
        for (int i = 0; i < n; i++) model.push_back(name(i));
        sx_reach("many");
    } else {
        static const int LS[] = {7, 8, 15, 16, 22, 23, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096};
        int l = LS[sx_pick("length", sizeof LS / sizeof *LS)];
        string s(l, 'a');
        model.push_back(s);
        unsigned char c = sx_u8("last"); sx_assume(c != 0); sx_assume(c != 'a');
        model.push_back(s + "a");
        if (sx_pick("at", 2)) s[l - 1] = (char)c; else s += (char)c;
        model.push_back(s);
        sx_reach("long");
    }
    for (size_t i = 0; i < model.size(); i++) {
        sx_assert(d.get(model[i]) == 0, "a symbol that was not put is unknown");
        sx_assert(d.put(model[i]) == i + 1, "put gives a new symbol the next id");
    }
    for (size_t i = 0; i < model.size(); i++) sx_assert(d.get(model[i]) == i + 1 && d.put(model[i]) == i + 1, "ids never change");
    { std::ofstream out("dict"); sx_assert(d.save(out) == 0, "saving succeeds"); }
    MeaningDictionary e("dict");
    MeaningDictionary::ReverseLookupTable t = d.getReverseLookupTable(), u = e.getReverseLookupTable();
    for (size_t i = 0; i < model.size(); i++) {
        sx_assert(e.get(model[i]) == i + 1, "a loaded dictionary gives every symbol its old id");
        sx_assert(t.get(i + 1) == model[i] && u.get(i + 1) == model[i], "the reverse table gives the symbol of an id");
    }
    sx_assert(e.get("x") == 0 && e.put("x") == model.size() + 1, "a loaded dictionary goes on with the next id");
}
