// P31: a page is what one complete download delivered; its links are the anchors to the same site, resolved.
#include <sx.h>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <vector>
#include <curl/curl.h>
#undef curl_easy_setopt
#include <htmlcxx/html/ParserDom.h>
#include <htmlcxx/html/utils.h>
#include <gurl.h>
#include "crawler/utils/Page.hpp"
#ifndef NN
#define NN 2
#endif
#ifndef NB
#define NB 2
#endif
#ifndef NOPS
#define NOPS 2
#endif
typedef std::string S;
int verbose;
namespace url_canon { bool ReadUTFChar(const char* s, int* begin, int length, unsigned* out) { *out = (unsigned char)s[*begin]; return true; } }
struct Start { const char* spec; const char* fetch; };
static const Start STARTS[] = {{"http://h/d/e?q", "http://h/d/e?q"}, {"http://h:81/d/e", "http://h:81/d/e"}, {"https://H/d/#f", "https://h/d/"}, {"http://h", "http://h/"}};
struct Href { const char* text; bool same; const char* want; }; // relative to the first start
static const Href HREFS[] = {{"x", true, "http://h/d/x"}, {"/y?a&amp;b", true, "http://h/y?a&b"}, {"../z#k", true, "http://h/z#k"}, {"http://h:81/p", true, "http://h:81/p"}, {"http://o/x", false, ""}, {"//o/x", false, ""}, {"mailto:a@h", false, ""}, {"?r", true, "http://h/d/e?r"}, {"", true, "http://h/d/e?q"}, {"HTTP://H/w", true, "http://h/w"}};
static std::vector<Href> more; // links beyond those
static const Href& href(int i);
static const int NHREF = sizeof HREFS / sizeof *HREFS;
static const Href& href(int i) { return i < NHREF ? HREFS[i] : more[i - NHREF]; }
static bool eq(const S& a, const S& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return !d; }
// ---- downloads
typedef size_t (*Writer)(char*, size_t, size_t, void*);
struct Handle { S url; Writer write, header; void *wdata, *hdata; char* err; bool nobody; };
static int handles, downloads; static S content, header; static bool complete; static const char* fetch; static bool noHandle; static S fixedContent, fixedHeader; static bool fixed;
#ifdef LONGPAGE
static size_t atOnce;
static void deliver(Writer w, void* d, const S& all) { for (size_t at = 0; at < all.size(); ) { size_t k = all.size() - at; if (k > atOnce) k = atOnce; S c(all, at, k); sx_assert(w((char*)c.data(), 1, k, d) == k, "what arrives is taken"); at += k; } }
#endif
static void piece(Writer w, void* d, S* all, const char* what) {
    if (!w) return;
    unsigned n = sx_pick(what, NB + 1);
    if (!n) return;
    char* p = (char*)malloc(n); sx_sym(p, n, "byte");
    bool split = n > 1 && sx_pick("split", 2);
    for (unsigned at = 0, k = split ? 1 : n; at < n; at += k, k = n - at) { size_t r = w(p + at, 1, k, d); sx_assert(r == k, "what arrives is taken"); all->append(p + at, k); if (at + k >= n) break; }
    free(p);
}
extern "C" {
CURL* curl_easy_init(void) { if (noHandle) return nullptr; Handle* h = new Handle(); h->write = h->header = nullptr; h->wdata = h->hdata = nullptr; h->err = nullptr; h->nobody = false; handles++; return (CURL*)h; }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
    Handle* h = (Handle*)c; va_list ap; va_start(ap, o);
    switch ((int)o) {
    case CURLOPT_URL: h->url = va_arg(ap, const char*); break;
    case CURLOPT_WRITEFUNCTION: h->write = va_arg(ap, Writer); break;
    case CURLOPT_HEADERFUNCTION: h->header = va_arg(ap, Writer); break;
    case CURLOPT_WRITEDATA: h->wdata = va_arg(ap, void*); break;
    case CURLOPT_HEADERDATA: h->hdata = va_arg(ap, void*); break;
    case CURLOPT_ERRORBUFFER: h->err = va_arg(ap, char*); break;
    case CURLOPT_NOBODY: h->nobody = va_arg(ap, long) != 0; break;
    default: break;
    }
    va_end(ap); return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* c) {
    Handle* h = (Handle*)c; sx_assert(eq(h->url, fetch), "the page of the URL is downloaded");
    sx_assert(h->write && !h->nobody, "the page itself is downloaded");
    downloads++; S ct, hd; content.clear(); header.clear(); complete = false;
#ifdef LONGPAGE
    deliver(h->header, h->hdata, fixedHeader); deliver(h->write, h->wdata, fixedContent); hd = fixedHeader; ct = fixedContent;
#else
    if (fixed) { for (size_t i = 0; i < fixedHeader.size(); i++) h->header((char*)&fixedHeader[i], 1, 1, h->hdata); h->write((char*)fixedContent.data(), 1, fixedContent.size(), h->wdata); hd = fixedHeader; ct = fixedContent; }
    else { piece(h->header, h->hdata, &hd, "header"); piece(h->write, h->wdata, &ct, "content"); }
#endif
    if (sx_pick("result", 2)) { if (h->err && sx_pick("explained", 2)) strcpy(h->err, "broken"); return CURLE_PARTIAL_FILE; }
    content = ct; header = hd; complete = true;
    return CURLE_OK;
}
void curl_easy_cleanup(CURL* c) { sx_assert(handles == 1, "a download is ended once"); handles--; delete (Handle*)c; }
}
// ---- documents
struct N { S tag, name; int href; bool is; S value; bool nest = true; };
static std::vector<N> nodes; static S parsed;
namespace htmlcxx { namespace HTML {
void Node::parseAttributes() { const S& t = text(); if (t.size() == 4 && t[0] == '<') { const N& n = nodes[(t[1] - '0') * 64 + t[2] - '0']; if (n.href >= -1 && n.is) mAttributes[n.name] = n.value; } }
void ParserDom::beginParsing() {} void ParserDom::endParsing() {} void ParserDom::foundTag(Node, bool) {} void ParserDom::foundText(Node) {} void ParserDom::foundComment(Node) {}
const tree<Node>& ParserDom::parseTree(const S& html) {
    sx_assert(eq(html, content), "the page is parsed"); parsed = html;
    Node root; root.isTag(true); root.isComment(false); mHtmlTree.clear(); tree<Node>::iterator it = mHtmlTree.insert(mHtmlTree.begin(), root), at = it;
    for (size_t i = 0; i < nodes.size(); i++) { Node n; S t = "<00>"; t[1] = char('0' + i / 64); t[2] = char('0' + i % 64); n.text(t); n.tagName(nodes[i].tag); n.isTag(nodes[i].is); n.isComment(false); n.offset(0); n.length(0); tree<Node>::iterator c = mHtmlTree.append_child(at, n); if (nodes[i].is && nodes[i].nest) at = c; }
    return mHtmlTree;
}
S decode_entities(const S& s) { S o; for (size_t i = 0; i < s.size(); i++) if (!s.compare(i, 5, "&amp;")) { o += '&'; i += 4; } else o += s[i]; return o; }
} }
static void links(Page& page) {
    std::vector<GURL> got = page.getLinks();
    if (!downloads || !complete || content.empty()) { sx_assert(got.empty(), "a page that could not be downloaded has no links"); sx_reach("no page"); return; }
    size_t k = 0;
    for (auto& n : nodes) {
        if (!n.is || n.href < 0 || (n.tag != "a" && n.tag != "A")) continue;
        const Href& h = href(n.href);
        if (!h.same) { sx_reach("other site"); continue; }
        while (k < got.size() && got[k].spec() == fetch && S(h.want) != fetch) k++; // a link of a page to itself may or may not be listed
        if (S(h.want) == fetch && (k == got.size() || got[k].spec() != fetch)) continue;
        sx_assert(k < got.size() && eq(got[k].spec(), h.want), "every link to the same site is found, in order");
        k++; sx_reach("link");
    }
    while (k < got.size() && got[k].spec() == fetch) k++;
    sx_assert(k == got.size(), "only links to the same site are found");
}
void sx_main(void) {
#ifdef LINKS
    const Start& s = STARTS[0]; fetch = s.fetch; fixed = true; fixedContent = "page"; fixedHeader = "";
    unsigned n = sx_pick("nodes", NN + 1);
    static const char* TAGS[] = {"a", "A", "b", "abbr"};
    for (unsigned i = 0; i < n; i++) {
        N x; x.is = sx_pick("tag", 2) == 0; x.href = -2; x.name = "href"; x.tag = "a";
        if (x.is) { x.tag = TAGS[sx_pick("name", 4)]; x.href = (int)sx_pick("href", NHREF + 2) - 2; if (x.href == -1) { x.name = "name"; x.value = "http://h/no"; } else if (x.href >= 0) x.value = HREFS[x.href].text; }
        nodes.push_back(x);
    }
    GURL g(s.spec); Page page(g);
    links(page);
#elif defined(MANYLINKS)
    const Start& s = STARTS[0]; fetch = s.fetch; fixed = true; fixedContent = "page"; fixedHeader = "";
    static const unsigned NS[] = {9, 33, 130}; unsigned n = NS[sx_pick("links", 3)], nest = sx_pick("nested", 2), odd = sx_pick("odd", 3);
    for (unsigned i = 0; i < n; i++) {
        S d; for (unsigned v = i + 1; v; v /= 10) d.insert(d.begin(), char('0' + v % 10));
        S t, w; bool same = true;
        switch (i % 5) {
        case 0: t = "x" + d; w = "http://h/d/x" + d; break;
        case 1: t = "/y" + d + "?a=" + d + "&amp;b#f" + d; w = "http://h/y" + d + "?a=" + d + "&b#f" + d; break;
        case 2: t = "http://h:81/" + S(i == n - 1 || i == 7 ? (odd == 0 ? 300 : odd == 1 ? 1100 : 5000) : 1, 'l') + d; w = t; break;
        case 3: t = "http://o" + d + "/" + d; same = false; break;
        default: t = "../" + d + "/./e/../"; w = "http://h/" + d + "/";
        }
        if (i == (odd == 0 ? 0 : odd == 1 ? 5 : n - 1) && i % 5 == 0) { char c = (char)sx_u8("letter"); sx_assume(c >= 'a' && c <= 'z'); t += c; w += c; }
        N x; x.is = true; x.tag = i % 7 == 3 ? "A" : "a"; x.name = "href"; x.value = t; x.href = NHREF + i; x.nest = nest && i < 40;
        more.push_back(Href{strdup(t.c_str()), same, strdup(w.c_str())}); nodes.push_back(x);
        if (i % 4 == 1) { N o; o.is = i % 8 == 1; o.tag = "b"; o.href = -2; o.name = "href"; o.value = "http://h/no"; o.nest = false; nodes.push_back(o); }
    }
    { GURL g(s.spec); Page page(g); links(page); if (complete) sx_reach("many links"); }
#elif defined(ADDRESS)
    static const char* const SCH[] = {"http://", "https://", "HTTP://"}; static const char* const HOST[] = {"h", "a.b-c.de", "H", "1.2.3.4"}; static const char* const PORT[] = {"", ":81", ":8080", ":80", ":443"};
    static const char* const PATH[] = {"", "/", "/d/e", "/d//e.x/", "/%41b", "/a/../c"}; static const char* const QUERY[] = {"", "?q", "?a=b&c=/d", "?"}; static const char* const REF[] = {"", "#f", "#?x"};
    unsigned a = sx_pick("scheme", 3), b = sx_pick("host", 4), c = sx_pick("port", 5), d = sx_pick("path", 6), e = sx_pick("query", 4), f = sx_pick("ref", 3);
    static const char* const PATHS[] = {"/", "/", "/d/e", "/d//e.x/", "/Ab", "/c"};
    bool https = a == 1; S want = https ? "https://" : "http://"; want += b == 2 ? "h" : HOST[b]; if (c && !(c == 3 && !https) && !(c == 4 && https)) want += PORT[c]; // the port of the scheme need not be named
    want += PATHS[d]; want += QUERY[e];
    S spec = S(SCH[a]) + HOST[b] + PORT[c] + PATH[d] + QUERY[e] + REF[f]; sx_observe("variant", a + b + c + d + e + f);
    { GURL g(spec); Page p(g), q(spec); sx_assert(eq(p.getUrl(), want) && eq(q.getUrl(), want), "the URL of the page, as it is fetched"); if (c && e) sx_reach("port and query"); if (f) sx_reach("fragment"); }
#elif defined(LONGPAGE)
    const Start& s = STARTS[0]; fetch = s.fetch;
    static const size_t LS[] = {255, 256, 1024, 4095, 4096, 4097, 16384, 16385, 32768, 65535, 65536, 65537}, ONCE[] = {16384, 1000000, 1000};
    size_t n = LS[sx_pick("size", sizeof LS / sizeof *LS)], hn = sx_pick("header", 2) ? 300 : n; atOnce = ONCE[sx_pick("atonce", 3)];
    for (size_t i = 0; i < n; i++) fixedContent += (char)(i / 251 + i);
    fixedContent[n - 1] = (char)sx_u8("last"); fixedContent[n / 2] = (char)sx_u8("middle");
    for (size_t i = 0; i < hn; i++) fixedHeader += i % 50 == 49 ? '\n' : 'x';
    { GURL g(s.spec); Page page(g); S c = page.getContent();
      sx_assert(eq(c, complete ? fixedContent : S()), "the content is that of one complete download, or nothing");
      S h = page.getHeader();
      sx_assert(eq(h, complete ? fixedHeader : S()), "the header is that of one complete download, or nothing"); if (complete) sx_reach("long page"); }
#elif defined(DATE)
    const Start& s = STARTS[0]; fetch = s.fetch; fixed = true; fixedContent = "page";
    char b[3]; unsigned n = sx_pick("length", 4); sx_sym(b, sizeof b, "date"); for (unsigned i = 0; i < n; i++) sx_assume(b[i] != '\n');
    unsigned w = sx_pick("field", 3); S d(b, n);
    fixedHeader = w == 0 ? "X: y\r\n" : S("HTTP\r\nLast-Modified:") + d; if (w == 2) fixedHeader += "\nMore: x\r\n";
    { GURL g(s.spec); Page page(g); S h = page.getHeader(); S got = page.getModifiedDate();
      if (complete) sx_assert(eq(h, fixedHeader), "the header is kept");
      if (!complete || w == 0) sx_assert(got.empty(), "no date"); else { sx_assert(eq(got, d), "the date of the header"); sx_reach("date"); } }
#else
    unsigned u = sx_pick("url", NOPS > 1 ? 2 : 8);
    const Start& s = STARTS[u % 4]; fetch = s.fetch;
    GURL g(s.spec); Page* page = u > 3 ? new Page(S(s.spec)) : new Page(g);
    sx_assert(eq(page->getUrl(), fetch), "the URL of the page, as it is fetched");
    noHandle = sx_pick("no_handle", 2);
    for (int i = 0; i < NOPS; i++) {
        int before = downloads; bool had = complete && downloads; S oldc = content, oldh = header;
        unsigned op = sx_pick("op", 3);
        if (op == 0) { const S& c = page->getContent(); sx_assert(eq(c, complete ? content : S()), "the content is that of one complete download, or nothing"); if (complete && !content.empty()) sx_reach("content"); }
        else if (op == 1) { const S& h = page->getHeader(); sx_assert(eq(h, complete ? header : S()), "the header is that of one complete download, or nothing"); if (complete && !header.empty()) sx_reach("header"); }
        else links(*page);
        sx_assert(had || noHandle || downloads > before, "a page that is asked for is downloaded");
        if (had) { sx_assert(downloads == before, "a page is downloaded once"); sx_reach("once"); }
        else if (downloads && !complete) sx_reach("failed");
        noHandle = false;
    }
    delete page;
#endif
    sx_assert(handles == 0, "every download is ended");
    sx_reach("done");
}
