// P29: the program docs2harvest: options, configuration file, one harvest of all documents.
#include <sx.h>
#include "jsonstub.hpp"
#include <errno.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdexcept>
#include "crawler/parser/MathParser.hpp"
#ifndef ND
#define ND 2
#endif
typedef std::string S;
extern "C" int vf_main(int argc, char* argv[]);
static S wantDir; static bool optO, optC, optX, optN, noConfig, badConfig, noDir, noTemp, noStream, closeFails; static int failWrite = -1, writes;
static bool created; static S path, written; static bool isOpen, failed; static int streams; static int asked;
static JNode* config;
struct Want { bool save; S id, text; std::vector<std::pair<S, S>> meta; } W;
static std::vector<crawler::parser::Harvest> docs; static std::vector<bool> bad; static std::vector<S> names;
namespace common { namespace utils {
void create_directory(const S& p, bool strict) { sx_assert(optO && p == wantDir && !strict, "the directory that was given"); if (noDir) throw std::runtime_error("dir"); created = true; }
S getFileContents(const S& p) throw(std::runtime_error) { sx_assert(optC && p == "conf", "the configuration file that was given"); if (noConfig) throw std::runtime_error("conf"); return "CONFIG"; }
} }
namespace crawler { namespace parser {
HarvesterConfiguration::HarvesterConfiguration() : shouldSaveData(true), textWithMathXpath("/") {}
S HarvesterConfiguration::toString() const { return "configuration"; }
void cleanupMathParser() {}
Harvest createHarvestFromDocument(const S& p, const HarvesterConfiguration& c) {
    size_t k = asked++;
    sx_assert(k < names.size() && p == names[k], "every document once, in order");
    sx_assert(c.shouldSaveData == W.save && c.documentIdXpath == W.id && c.textWithMathXpath == W.text, "the configuration that was given");
    sx_assert(c.metadataItems.size() == W.meta.size(), "the metadata that was configured");
    for (size_t i = 0; i < W.meta.size(); i++) sx_assert(c.metadataItems[i].name == W.meta[i].first && c.metadataItems[i].xpath == W.meta[i].second, "each metadata item");
    for (size_t i = 0; i < k; i++) sx_assert(docs[i].dataElement.empty() || c.data_id != docs[i].dataElement, "the documents of a harvest have different data ids");
    docs[k].dataElement = c.data_id; // stands for the data, which carries the id
    if (bad[k]) throw std::runtime_error("document");
    return docs[k];
}
} }
extern "C" {
struct json_object* json_tokener_parse(const char* s) { sx_assert(!strcmp(s, "CONFIG"), "the configuration is parsed"); if (badConfig) return nullptr; config->refs = 1; j_live++; return JO(config); }
enum json_type json_object_get_type(const struct json_object* o) { if (!o) return json_type_null; switch (JC(o)->kind) { case 'o': return json_type_object; case 'a': return json_type_array; case 's': return json_type_string; case 'b': return json_type_boolean; default: return json_type_int; } }
int json_object_is_type(const struct json_object* o, enum json_type t) { return json_object_get_type(o) == t; }
json_bool json_object_get_boolean(const struct json_object* o) { return o && JC(o)->kind == 'b' && JC(o)->i; }
const char* json_object_get_string(struct json_object* o) { return o && J(o)->kind == 's' ? J(o)->s.c_str() : "other"; }
struct lh_table* json_object_get_object(const struct json_object* o) {
    if (!o || JC(o)->kind != 'o') return nullptr;
    struct lh_table* t = (struct lh_table*)calloc(1, sizeof *t); struct lh_entry* last = nullptr;
    for (auto& f : JC(o)->fields) { struct lh_entry* e = (struct lh_entry*)calloc(1, sizeof *e); e->k = f.first.c_str(); e->v = f.second; if (last) last->next = e; else t->head = e; last = e; }
    return t;
}
int vf_mkstemps(char* t, int suffix) {
    size_t n = strlen(t);
    sx_assert(suffix >= 0 && n >= (size_t)suffix + 6 && !strncmp(t + n - suffix - 6, "XXXXXX", 6), "a template with room for a name");
    sx_assert(!optO || created, "the directory exists");
    if (noTemp) { errno = EACCES; return -1; }
    memcpy(t + n - suffix - 6, "abcdef", 6); path = t;
    return 7;
}
FILE* vf_fdopen(int fd, const char* mode) { sx_assert(fd == 7 && mode[0] == 'w', "the harvest is written"); if (noStream) { errno = ENOMEM; return nullptr; } isOpen = true; streams++; return (FILE*)&streams; }
static bool put(const S& s) { sx_assert(isOpen, "written while it is open"); if (writes++ == failWrite) { failed = true; errno = ENOSPC; return false; } written += s; return true; }
static bool console(FILE* f) { return f == stdout || f == stderr || !f; }
int vf_fputs(const char* s, FILE* f) { if (console(f)) return 1; return put(s) ? 1 : EOF; }
size_t vf_fwrite(const void* p, size_t a, size_t b, FILE* f) { if (console(f)) return b; return put(S((const char*)p, a * b)) ? b : 0; }
int vf_fputc(int c, FILE* f) { if (console(f)) return c; return put(S(1, (char)c)) ? c : EOF; }
int vf_ferror(FILE* f) { return failed; }
int vf_fflush(FILE* f) { return 0; }
int vf_fclose(FILE* f) { if (console(f)) return 0; sx_assert(isOpen, "closed once"); isOpen = false; streams--; return closeFails ? EOF : 0; }
int vf_atexit(void (*)(void)) { return 0; }
void vf_perror(const char*) {}
}
static JNode* str(const char* s) { JNode* n = j_new('s'); n->s = s; return n; }
static void field(JNode* o, const char* k, JNode* v) { o->fields.push_back(std::make_pair(S(k), v)); }
extern "C" void sx_main(void) {
    std::vector<S> args; args.push_back("docs2harvest");
    W.save = true; W.text = "/";
    switch (sx_pick("failure", 9)) {
    case 1: noConfig = true; break; case 2: badConfig = true; break; case 3: noDir = true; break; case 4: noTemp = true; break; case 5: noStream = true; break;
    case 6: closeFails = true; break; case 7: failWrite = 0; break; case 8: failWrite = 1 + sx_pick("write", 4); break;
    }
    bool faulty = noConfig | badConfig | noDir | noTemp | noStream | closeFails | (failWrite >= 0);
    optC = sx_pick("c", 2); optO = sx_pick("o", 2); optX = sx_pick("x", 2); optN = sx_pick("n", 2);
    bool many = !faulty && !optO && !optX; // documents vary here, the configuration file elsewhere
    bool nFirst = optN && sx_pick("nfirst", 2);
    if (nFirst) args.push_back("-n");
    if (optX) { args.push_back(sx_pick("long", 2) ? "--document-uri-xpath" : "-x"); args.push_back("X"); }
    if (optO) { wantDir = "dir"; args.push_back("-o"); args.push_back("dir"); }
    if (optC) { args.push_back("-c"); args.push_back("conf"); }
    if (optN && !nFirst) args.push_back("--no-data");
    size_t n = faulty ? 1 : many ? sx_pick("documents", ND + 1) : 1;
    for (size_t i = 0; i < n; i++) {
        names.push_back(S("doc") + (char)('1' + i)); args.push_back(names[i]);
        bad.push_back(many && sx_pick("bad", 2));
        crawler::parser::Harvest h; size_t m = many ? sx_pick("formulas", 3) : 1;
        for (size_t k = 0; k < m; k++) h.contentMathElements.push_back(S("<e") + (char)('0' + 3 * i + k) + ">");
        docs.push_back(h);
    }
    if (optC && (many || faulty)) { config = j_new('o'); W.save = false; W.text = ""; W.id = "I"; field(config, "documentIdXpath", str("I")); }
    else if (optC) { // fields given, missing or of another type
        config = j_new('o');
        switch (sx_pick("shouldSaveData", 4)) { case 0: field(config, "shouldSaveData", (JNode*)json_object_new_boolean(1)); break; case 1: field(config, "shouldSaveData", (JNode*)json_object_new_boolean(0)); W.save = false; break; case 2: field(config, "shouldSaveData", str("true")); W.save = false; break; default: W.save = false; }
        if (sx_pick("documentIdXpath", 2)) { field(config, "documentIdXpath", str("I")); W.id = "I"; }
        if (sx_pick("textWithMathXpath", 2)) { field(config, "textWithMathXpath", str("T")); W.text = "T"; } else { field(config, "textWithMathXpath", (JNode*)json_object_new_int(1)); W.text = ""; }
        switch (sx_pick("metadata", 4)) {
        case 0: break; case 1: field(config, "metadata", j_new('a')); break;
        default: {
            JNode* m = j_new('o'); field(config, "metadata", m);
            field(m, "author", str("A")); W.meta.push_back(std::make_pair(S("author"), S("A")));
            field(m, "title", j_new('b')); W.meta.push_back(std::make_pair(S("title"), S("")));
        }
        }
    }
    j_live = 0;
    if (optX) W.id = "X";
    if (optN) W.save = false;
    std::vector<char*> argv;
    for (auto& s : args) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); argv.push_back(p); }
    argv.push_back(nullptr);
    int r = vf_main((int)args.size(), argv.data());
    bool configFails = optC && (noConfig || badConfig), early = !n || configFails || (optO && noDir) || noTemp || noStream;
    bool ok = !early && !closeFails && !failed;
    sx_assert((r == 0) == ok, "success is reported exactly if the harvest was written");
    sx_assert(!isOpen, "the harvest is closed");
    sx_observe("r", r);
    if (early) { sx_assert(asked == 0 && written.empty(), "nothing is converted after an early failure"); sx_reach("refused"); return; }
    if (!ok) { sx_reach("not written"); return; }
    sx_assert(asked == (int)n, "every document is converted");
    S dir = optO ? "dir/" : "./", end = ".harvest";
    sx_assert(path.compare(0, dir.size(), dir) == 0 && path.compare(path.size() - end.size(), end.size(), end) == 0, "the harvest is where it was asked for, under a name that mwsd takes for a harvest");
    S want; for (size_t i = 0; i < n; i++) if (!bad[i]) { want += docs[i].dataElement; for (auto& e : docs[i].contentMathElements) want += e; }
    size_t a = written.find("<mws:harvest"), b = a == S::npos ? a : written.find(">", a);
    sx_assert(b != S::npos, "a harvest element");
    S start = written.substr(0, b), body = written.substr(b + 1);
    sx_assert(start.find("xmlns:mws=\"http://search.mathweb.org/ns\"") != S::npos && start.find("xmlns:m=\"http://www.w3.org/1998/Math/MathML\"") != S::npos, "the namespaces of a harvest");
    S text; for (char c : body) if (c != '\n') text.push_back(c);
    sx_assert(text == want + "</mws:harvest>", "data and formulas of every document that could be read, in order, and nothing else");
    sx_reach("written"); for (size_t i = 0; i < n; i++) if (bad[i]) sx_reach("bad document"); if (optC) sx_reach("configured");
}
