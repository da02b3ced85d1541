// P04: the statistics that mwsd -s logs: after each file, the occurrences and the different terms of the index, and its size.
#include "cmml.hpp"
#include "search_common.hpp"
#include "memfs.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/index/IndexBuilder.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"
#include "common/utils/util.hpp"
#ifndef NF
#define NF 2
#endif
struct F { std::vector<Model*> ns; Model* root; };
static std::vector<std::vector<F>> files; static std::vector<bool> isHarvest; static TmpIndex* tmp; static IndexBuilder* bld;
static std::vector<uint64_t> want; static std::vector<Model*> terms; static uint64_t occurrences, formulas; static unsigned at;
static bool same(Model* a, Model* b) {
    if (a->kids.size() != b->kids.size()) return false;
    for (size_t i = 0; i < a->kids.size(); i++) if (a->kids[i]->kids.size() != b->kids[i]->kids.size()) return false;
    bool eq = same_bytes(a->text, b->text);
    for (size_t i = 0; i < a->kids.size(); i++) eq = eq & same(a->kids[i], b->kids[i]);
    return eq;
}
static bool contains(const std::vector<Model*>& v, size_t n, Model* m) { bool d = false; for (size_t i = 0; i < n; i++) d = d | same(v[i], m); return d; }
namespace common { namespace utils {
static int visit(const std::string& path, const FileCallback& file) {
    for (unsigned i = 0; i < files.size(); i++) { at = i; std::string p = path + "/" + (isHarvest[i] ? "a.harvest" : "b.txt"); mfs_make(p.c_str()); if (file(p, "") != 0) return -1; want.push_back(occurrences); want.push_back(terms.size()); want.push_back(tmp->computeMemsectorSize()); }
    return 0;
}
int foreachEntryInDirectory(const std::string& path, const FileCallback& file, const DirectoryCallback&) { return visit(path, file); }
bool hasSuffix(const std::string& s, const std::string& x) { return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
std::string humanReadableByteCount(uint64_t, bool) { return ""; }
} }
namespace mws { namespace parser {
HarvestResult processHarvestFromFd(int fd, HarvestProcessor* p, bool) {
    HarvestResult r; r.status = 0; r.numExpressions = 0;
    for (auto& f : files[at]) {
        r.numExpressions += p->processExpression(build(f.root), "u", 1); formulas++;
        for (size_t i = 0; i < f.ns.size(); i++) { if (contains(f.ns, i, f.ns[i])) continue; occurrences++; if (!contains(terms, terms.size(), f.ns[i])) terms.push_back(f.ns[i]); }
    }
    return r;
}
} }
static uint64_t num(const std::string& s, size_t* i) { while (*i < s.size() && (s[*i] == ' ' || s[*i] == ',' || s[*i] == '\t')) ++*i; sx_assert(*i < s.size() && s[*i] >= '0' && s[*i] <= '9', "a number"); uint64_t v = 0; while (*i < s.size() && s[*i] >= '0' && s[*i] <= '9') v = v * 10 + (s[(*i)++] - '0'); return v; }
extern "C" void sx_main(void) {
    TmpIndex index; dbc::MemFormulaDb db; MeaningDictionary dict; IndexBuilder builder(&db, nullptr, &index, &dict); tmp = &index;
    unsigned nf = 1 + sx_pick("files", NF);
    for (unsigned k = 0; k < nf; k++) {
        std::vector<F> fs; unsigned kind = sx_pick("file", 3); isHarvest.push_back(kind != 0);
        for (unsigned j = 0; j < kind; j++) {
            auto all = shapes(j ? 2 : NT, 2); F f; f.root = model_of(all[sx_pick("shape", all.size())], f.ns);
            for (auto m : f.ns) { m->tag = "c"; uint8_t c = 'a'; if (m == f.ns.back() && !j) { c = sx_u8("symbol"); sx_assume((c >= 'a') & (c <= 'z')); } m->text = std::string(1, (char)c); }
            fs.push_back(f);
        }
        files.push_back(fs);
    }
    HarvesterConfiguration c; c.paths.push_back("h"); c.fileExtension = "harvest";
    unsigned how = sx_pick("log", 3); // none, kept, cannot be opened
    if (how) c.statisticsLogFile = "stats";
    if (how == 2) mfs_fail_call = 0;
    uint64_t n = loadHarvests(&builder, c);
    sx_assert(n == occurrences, "the number of indexed expressions is reported");
    sx_assert(mfs_open == 0, "every file is closed");
    MFile* log = mfs_find("stats");
    if (how != 1) { sx_assert(!log, "no statistics unless asked for"); if (how == 2) sx_reach("log cannot be opened"); return; }
    sx_assert(log, "the statistics are logged");
    std::string s(log->data.begin(), log->data.end()); std::vector<uint64_t> got; size_t i = 0;
    while (i < s.size()) {
        if (s[i] == '#') { while (i < s.size() && s[i] != '\n') i++; i++; continue; }
        for (int k = 0; k < 3; k++) got.push_back(num(s, &i));
        sx_assert(i < s.size() && s[i] == '\n', "one line for each file"); i++;
    }
    sx_assert(got == want, "after each file: the occurrences, the different terms, the size of the index");
    if (nf > 1 && occurrences > terms.size()) sx_reach("shared between files");
    sx_observe("lines", (long)got.size());
}
