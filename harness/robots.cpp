// P20: which links the rules of robots.txt allow.
#include <sx.h>
#include <string.h>
#include <string>
#include <vector>
#include "crawler/types/Robotstxt.hpp"
#include "crawler/utils/Page.hpp"
#ifndef NL
#define NL 4
#endif
#ifndef NU
#define NU 3
#endif
int verbose;
static std::string robotsText; static std::string asked;
int curlWriter(char*, size_t, size_t, std::string*) { return 0; }
Page::Page(GURL g) : url(g), downloadedHeader(0), downloadedContent(0) { asked = g.spec(); }
Page::Page(std::string s) : downloadedHeader(0), downloadedContent(0) { asked = s; }
const std::string Page::getUrl() { return asked; }
const std::string& Page::getHeader() { return header; }
const std::string& Page::getContent() { content = robotsText; return content; }
std::string Page::getModifiedDate() { return ""; }
std::vector<GURL> Page::getLinks() { return std::vector<GURL>(); }
namespace url_canon { // stand-in for the ICU based one: the next character, or its replacement
bool ReadUTFChar(const char* s, int* begin, int length, unsigned* out) {
    unsigned char c = (unsigned char)s[*begin];
    *out = 0xfffd;
    if (c < 0x80) { *out = c; return true; }
    int more = c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : 0;
    if (!more) return false;
    unsigned v = c & (0x3f >> more);
    for (int i = 1; i <= more; i++) {
        if (*begin + 1 >= length || ((unsigned char)s[*begin + 1] & 0xc0) != 0x80) return false;
        v = v << 6 | ((unsigned char)s[++*begin] & 0x3f);
    }
    *out = v;
    return true;
}
}
static char letter(const char* n) { // bytes that are their own canonical form
    char c = (char)sx_u8(n);
    sx_assume((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '/' || c == '-' || c == '_' || c == '?');
    return c;
}
extern "C" void sx_main(void) {
    std::vector<std::string> rules; // the rules that apply to everybody
    std::string text;
#ifdef RAW
    const char* H[] = {"", "User-agent: *\nDisallow: ", "User-agent:", "User-agent: *\nDisallow"};
    text = H[sx_pick("head", 4)];
    unsigned n = sx_pick("length", RAW + 1);
    for (unsigned i = 0; i < n; i++) { char c = (char)sx_u8("byte"); text.push_back(c); }
    robotsText = text;
    Robotstxt r(GURL("http://h/x"));
    int a = r.is_allowed_by_robots_txt(GURL("http://h/a"));
    sx_assert(a == 0 || a == 1, "an answer for every content");
    sx_reach(a ? "allowed" : "refused");
#elif defined(MANY)
    // groups for everybody and for others in turn, with many or long rules
    static const int NR[] = {9, 40, 130}; int nr = NR[sx_pick("rules", 3)]; bool longRules = sx_pick("long", 2);
    std::string other;
    for (int i = 0; i < nr; i++) {
        if (i % 10 == 0) text += i % 20 == 0 ? "User-agent: x\nUser-agent: *\n" : "User-agent: " + std::string(i == 30 ? 5000 : 3, 'y') + "\r\n";
        std::string p = "/" + std::string(longRules ? 20 + i * (i == 8 ? 600 : 5) : 1, 'r') + std::to_string(i) + "/";
        text += (i % 3 ? "Disallow: " : "disallow:") + p + (i % 4 ? "\n" : " # " + std::string(i * 9, '#') + "\r\n");
        if (i == 5) text += "Crawl-delay: 7\n\n";
        if (i % 20 < 10) rules.push_back(p); else other = p;
    }
    robotsText = text;
    Robotstxt r(GURL("http://h/some/page"));
    static const int WHICH[] = {0, 1, 7, 8, 100, 120}; size_t w = WHICH[sx_pick("which", 6)]; if (w >= rules.size()) w = rules.size() - 1;
    std::string u = rules[w]; if (sx_pick("other", 2) && !other.empty()) u = other;
    switch (sx_pick("change", 4)) { case 0: break; case 1: u += letter("url"); u += std::string(300, 'z'); break; case 2: u.resize(u.size() - 1); break; case 3: u[u.size() - 2] = letter("url"); break; }
    bool refused = false; for (auto& p : rules) refused = refused | (u.compare(0, p.size(), p) == 0);
    int a = r.is_allowed_by_robots_txt(GURL("http://h" + u));
    sx_assert((a == 0) == refused, "refused exactly if a rule for everybody is a prefix of the path");
    sx_reach(a ? "allowed" : "refused");
#else
    bool start = false, all = false;
#ifdef ONERULE
    std::string p = "/"; unsigned np = sx_pick("rulelength", NU + 1); for (unsigned i = 0; i < np; i++) p.push_back(letter("rule"));
    sx_assume(np == 0 || p[1] != '/');
    text = "User-agent: *\nDisallow: " + p + "\n";
    rules.push_back(p);
#else
    unsigned n = sx_pick("lines", NL + 1);
    for (unsigned i = 0; i < n; i++) {
        std::string l, v; int kind;
        switch (sx_pick("line", 12)) {
        case 0: l = "User-agent: *"; kind = 1; v = "*"; break;
        case 1: l = "User-agent: x"; kind = 1; v = "x"; break;
        case 2: l = "User-agent: *x"; kind = 1; v = "*x"; break;
        case 3: l = "user-Agent:*"; kind = 1; v = "*"; break;
        case 4: l = "Disallow: /a"; kind = 2; v = "/a"; break;
        case 5: l = "Disallow: /a/ "; kind = 2; v = "/a/"; break;
        case 6: l = "DISALLOW:/b?c # comment"; kind = 2; v = "/b?c"; break;
        case 7: l = "Disallow:"; kind = 2; v = ""; break;
        case 8: l = "# Disallow: /"; kind = 0; break;
        case 9: l = ""; kind = 0; break;
        case 10: l = "Crawl-delay: 1"; kind = 3; break;
        default: l = "Disallow: /"; kind = 2; v = "/"; break;
        }
        if (kind == 1) { if (!start) all = false; start = true; if (v == "*") all = true; }
        else if (kind) { start = false; if (kind == 2 && all && !v.empty()) rules.push_back(v); }
        text += l;
        if (i + 1 < n || sx_pick("newline", 2)) text += i % 2 ? "\r\n" : "\n";
    }
#endif
    robotsText = text;
    Robotstxt r(GURL("http://h/some/page"));
    sx_assert(asked == "http://h/robots.txt", "the rules of the site are read");
    std::string u = "/"; unsigned nu = sx_pick("urllength", NU + 1); for (unsigned i = 0; i < nu; i++) u.push_back(letter("url"));
    bool hostile = sx_pick("otherhost", 2);
    bool refused = false;
    for (auto& p : rules) refused = refused | (!hostile && u.compare(0, p.size(), p) == 0);
    int a = r.is_allowed_by_robots_txt(GURL((hostile ? "http://i" : "http://h") + u));
    sx_assert((a == 0) == refused, "refused exactly if a rule for everybody is a prefix of the path");
    sx_assert(a == 0 || a == 1, "an answer for every URL");
    sx_reach(a ? "allowed" : "refused");
    if (rules.size() > 1) sx_reach("several rules");
    if (!rules.empty() && a) sx_reach("allowed in spite of a rule");
#endif
}
