// libxml2 push parser stand-in: the harness plays a document as a sequence of SAX events.
#pragma once
#include <sx.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <libxml/parser.h>
#include <libxml/parserInternals.h>
#include <libxml/threads.h>
static xmlSAXHandler* sax; static void* saxUser; static xmlInputReadCallback saxRead; static void* saxIo;
static int saxLive, saxLocked; static bool saxNoContext, saxBroken; // broken: a fatal error, no more events
static void sax_document();     // the harness: emits the events, using the functions below
static int saxDepth; static bool saxEnd = true; static unsigned saxEvents;
typedef std::vector<std::pair<std::string, std::string>> Attrs;
extern "C" {
xmlParserCtxtPtr xmlCreateIOParserCtxt(xmlSAXHandlerPtr s, void* user, xmlInputReadCallback rd, xmlInputCloseCallback cl, void* io, xmlCharEncoding) {
    if (saxNoContext) return nullptr;
    sax = s; saxUser = user; saxRead = rd; saxIo = io; saxLive++;
    xmlParserCtxtPtr c = (xmlParserCtxtPtr)calloc(1, sizeof *c); c->wellFormed = 1; c->userData = user; c->sax = s;
    return c;
}
void xmlFreeParserCtxt(xmlParserCtxtPtr c) { if (!c) return; saxLive--; free(c); }
int xmlParseDocument(xmlParserCtxtPtr c) {
    char b[4]; saxRead(saxIo, b, 4);
    if (sax->startDocument) sax->startDocument(saxUser);
    sax_document();
    if (saxEnd && sax->endDocument) sax->endDocument(saxUser);
    if (saxBroken) { c->wellFormed = 0; return -1; }
    return 0;
}
void xmlLockLibrary() { saxLocked++; sx_assert(saxLocked == 1, "the parser is locked once"); }
void xmlUnlockLibrary() { saxLocked--; sx_assert(saxLocked == 0, "the parser is unlocked once"); }
void xmlInitParser() {}
xmlEntityPtr xmlGetPredefinedEntity(const xmlChar*) { return nullptr; }
}
static void sax_start(const std::string& name, const Attrs& a) {
    if (saxBroken) return;
    std::vector<const xmlChar*> v;
    for (auto& x : a) { v.push_back(BAD_CAST x.first.c_str()); v.push_back(BAD_CAST x.second.c_str()); }
    v.push_back(nullptr); v.push_back(nullptr);
    saxDepth++; sax->startElement(saxUser, BAD_CAST name.c_str(), a.empty() ? nullptr : &v[0]);
}
static void sax_close(const std::string& name) { if (saxBroken) return; saxDepth--; sax->endElement(saxUser, BAD_CAST name.c_str()); }
// text, possibly in two pieces; the bytes after it do not belong to it
static void sax_text(const std::string& s, bool mayCut) {
    if (saxBroken) return;
    size_t cut = s.size();
    if (mayCut && s.size() > 12) { unsigned k = sx_pick("cut", 4); cut = k == 0 ? 1 : k == 1 ? s.size() / 2 : k == 2 ? s.size() - 1 : s.size(); }
    else if (mayCut && s.size() > 1) cut = 1 + sx_pick("cut", (unsigned)s.size());
    std::string a = s.substr(0, cut) + "<", b = cut < s.size() ? s.substr(cut) + "<" : "";
    sax->characters(saxUser, BAD_CAST a.c_str(), (int)a.size() - 1);
    if (!b.empty()) sax->characters(saxUser, BAD_CAST b.c_str(), (int)b.size() - 1);
}
static void sax_warning() { if (!saxBroken && sax->warning) sax->warning(saxUser, "a warning\n"); }
static void sax_error() { if (!saxBroken && sax->error) sax->error(saxUser, "an error\n"); }       // goes on afterwards
static void sax_fatal() { if (saxBroken) return; if (sax->error) sax->error(saxUser, "a fatal error\n"); saxBroken = true; saxEnd = sx_pick("enddocument", 2); }
// long names and texts
static std::string pad;
static void pickPad() {
#ifdef LONGTEXT
    static const int LS[] = {13, 14, 15, 29, 62, 126, 254, 510, 1022, 4094, 70000}; pad = std::string(LS[sx_pick("pad", sizeof LS / sizeof *LS)], 'q');
#endif
}
static unsigned char plain(const char* n) { unsigned char c = sx_u8(n); sx_assume(c >= 'a' && c <= 'z'); return c; }
