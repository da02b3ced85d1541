// P24: the option parser against an independent reading of the command line.
#include <sx.h>
#include <string.h>
#include <map>
#include <string>
#include <vector>
#include "common/utils/FlagParser.hpp"
using common::utils::FlagParser;
#ifndef NARGS
#define NARGS 3
#endif
struct Flag { char s; std::string l; int need, arg; };
static std::vector<Flag> flags;
enum Outcome { OK, FAILED, HELP, VERSION };
struct Expect { Outcome o; std::map<char, std::vector<std::string>> args; std::map<char, bool> given, mentioned; std::vector<std::string> params; };
static Expect want;
static const Flag* longFlag(const std::string& n) {
    for (auto& f : flags) if (f.l == n) return &f;
    const Flag* r = nullptr;
    for (auto& f : flags) if (f.l.compare(0, n.size(), n) == 0) { if (r) return nullptr; r = &f; }
    return r;
}
static const Flag* shortFlag(char c) { for (auto& f : flags) if (f.s == c) return &f; return nullptr; }
static bool take(Expect& e, const Flag* f, bool has, const std::string& v) {
    if (f->s == 'h') { e.o = HELP; return false; }
    if (f->s == 'V') { e.o = VERSION; return false; }
    e.mentioned[f->s] = true;
    if (f->arg == ARG_NONE || has) e.given[f->s] = true;
    if (has) e.args[f->s].push_back(v);
    return true;
}
static Expect read(const std::vector<std::string>& a, int minParams) {
    Expect e; e.o = OK;
    size_t i = 1;
    for (; i < a.size(); i++) {
        const std::string& s = a[i];
        if (s == "--") { i++; break; }
        if (s.size() < 2 || s[0] != '-') break;
        if (s[1] == '-') {
            size_t q = s.find('=');
            const Flag* f = longFlag(s.substr(2, q == std::string::npos ? std::string::npos : q - 2));
            bool has = q != std::string::npos;
            std::string v = has ? s.substr(q + 1) : "";
            if (!f || (has && f->arg == ARG_NONE)) { e.o = FAILED; return e; }
            if (!has && f->arg == ARG_REQ) { if (i + 1 == a.size()) { e.o = FAILED; return e; } has = true; v = a[++i]; }
            if (!take(e, f, has, v)) return e;
        } else {
            for (size_t k = 1; k < s.size(); k++) {
                const Flag* f = shortFlag(s[k]);
                if (!f) { e.o = FAILED; return e; }
                if (f->arg == ARG_NONE) { if (!take(e, f, false, "")) return e; continue; }
                bool has = k + 1 < s.size(); std::string v = has ? s.substr(k + 1) : "";
                if (!has && f->arg == ARG_REQ) { if (i + 1 == a.size()) { e.o = FAILED; return e; } has = true; v = a[++i]; }
                if (!take(e, f, has, v)) return e;
                break;
            }
        }
    }
    for (; i < a.size(); i++) e.params.push_back(a[i]);
    for (auto& f : flags) if (f.need == FLAG_REQ && !e.mentioned[f.s]) e.o = FAILED;
    if (minParams == -1 && !e.params.empty()) e.o = FAILED;
    if (minParams > 0 && (int)e.params.size() < minParams) e.o = FAILED;
    return e;
}
extern "C" void vf_exit(int c) {
    sx_assert(want.o == HELP || want.o == VERSION, "ends only for help and version");
    sx_assert(c == 0, "help and version succeed");
    sx_reach(want.o == HELP ? "help" : "version");
    sx_stop();
}
static std::string word(void) {
#ifdef BYTES
    std::string s; unsigned n = sx_pick("length", BYTES + 1);
    for (unsigned i = 0; i < n; i++) { char c = (char)sx_u8("byte"); sx_assume(c != 0); s.push_back(c); }
    return s;
#else
    static const char* W[] = {"-a", "-b", "-q", "x", "--beta", "--be", "--beta=y", "--alpha", "--", "-bz", "-aq", "-c", "-cw", "--al", "--gamma", "--gamma=", "--verbose", "-", "", "--none", "-h", "--version", "--alpha=1", "--ve"};
    return W[sx_pick("word", sizeof W / sizeof *W)];
#endif
}
extern "C" void sx_main(void) {
    static const char S[] = {'a', 'b', 'c'}; static const char* L[] = {"alpha", "beta", "gamma"};
    for (int i = 0; i < 3; i++) {
        Flag f; f.s = S[i]; f.l = L[i];
#ifdef BYTES
        f.arg = i == 0 ? (int)sx_pick("arg", 3) : i == 1 ? ARG_REQ : ARG_OPT; f.need = FLAG_OPT;
#else
        f.arg = i == 0 ? ARG_NONE : i == 1 ? ARG_REQ : ARG_OPT;
        f.need = i < 2 ? (int)sx_pick("required", 2) : FLAG_OPT;
#endif
        flags.push_back(f);
        FlagParser::addFlag(f.s, f.l, f.need, f.arg);
    }
#ifdef MANY
    static const char M[] = "defgijklmnopqrstuwxyzABCDE"; static const std::string* names[26];
    for (int i = 0; i < 26; i++) { names[i] = new std::string((i % 2 ? "opt-" : "x") + std::string(i, 'n') + M[i]); Flag f{M[i], *names[i], i == 20 ? FLAG_REQ : FLAG_OPT, i % 3 == 0 ? ARG_NONE : i % 3 == 1 ? ARG_REQ : ARG_OPT}; flags.push_back(f); FlagParser::addFlag(f.s, f.l, f.need, f.arg); }
#endif
    flags.push_back(Flag{'h', "help", FLAG_OPT, ARG_NONE});
    flags.push_back(Flag{'v', "verbose", FLAG_OPT, ARG_NONE});
    flags.push_back(Flag{'V', "version", FLAG_OPT, ARG_NONE});
#ifdef BYTES
    int minParams = 0;
#else
    int minParams = (int)sx_pick("params", 4) - 1;
#endif
    FlagParser::setMinNumParams(minParams);
    std::vector<std::string> a; a.push_back("prog");
#ifdef MANY
    static const int CNT[] = {9, 130}, LEN[] = {3, 300, 70000}; int cnt = CNT[sx_pick("count", 2)], len = LEN[sx_pick("length", 3)];
    std::string big(len, 'v'); char c = (char)sx_u8("byte"); sx_assume(c != 0); big[len - 1] = c;
    if (sx_pick("mandatory", 2)) { a.push_back("-z"); a.push_back("-a"); a.push_back("--beta=" + big); }
    switch (sx_pick("kind", 4)) {
    case 0: for (int i = 0; i < cnt; i++) { a.push_back("-b"); a.push_back(i == 1 ? big : "v" + std::to_string(i)); } a.push_back("p"); break;
    case 1: for (int i = 0; i < cnt; i++) a.push_back(i == 1 ? big : "p" + std::to_string(i)); break;
    case 2: for (int i = 0; i < 26; i++) { std::string s = std::string("-") + M[i]; if (i % 3 == 1) s += big; a.push_back(s); if (i % 3 == 2 && i % 2) a.back() += "w"; } a.push_back("--"); for (int i = 0; i < cnt; i++) a.push_back("-p" + std::to_string(i)); break;
    default: for (int i = 0; i < 26; i++) { std::string s = "--" + *names[i]; if (i % 3 == 1) s += "=" + big; a.push_back(s); } a.push_back("--gamma=" + big); break;
    }
#else
    unsigned n = sx_pick("args", NARGS + 1);
    for (unsigned i = 0; i < n; i++) a.push_back(word());
#endif
    want = read(a, minParams);
    std::vector<char*> argv;
    for (auto& s : a) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); argv.push_back(p); }
    argv.push_back(nullptr);
    int r = FlagParser::parse((int)a.size(), argv.data());
    sx_assert(want.o == OK || want.o == FAILED, "help and version end the program");
    sx_assert((r == 0) == (want.o == OK), "success exactly for a valid command line");
    sx_observe("result", r == 0);
    if (r != 0) { sx_reach("refused"); return; }
    sx_assert(FlagParser::getParams() == want.params, "the positional arguments, in order");
    for (int round = 0; round < 2; round++)   // looking an option up changes nothing
        for (auto& f : flags) {
            sx_assert(FlagParser::hasArg(f.s) == (want.given.count(f.s) != 0), "an option is present exactly if it was given");
            std::vector<std::string> v = want.args.count(f.s) ? want.args[f.s] : std::vector<std::string>();
            sx_assert(FlagParser::getArgs(f.s) == v, "the values that were given, in order");
            sx_assert(FlagParser::getArg(f.s) == (v.empty() ? std::string() : v[0]), "the first value");
        }
    if (want.params.size() > 1) sx_reach("parameters");
    if (want.args.count('b') && want.args['b'].size() > 1) sx_reach("several values");
    if (!want.args.empty()) sx_reach("value");
}
