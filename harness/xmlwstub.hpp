// libxml2 text writer stand-in: builds a plain tree that the harness can inspect; the n-th call can fail.
#pragma once
#include <sx.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <libxml/xmlwriter.h>
struct XNode { std::string name, text; std::vector<std::pair<std::string, std::string>> attrs; std::vector<XNode*> kids; XNode* parent; };
struct XOut { xmlOutputWriteCallback write; xmlOutputCloseCallback close; void* ctxt; };
struct XWriter { XOut* out; XNode* root; XNode* cur; bool tagOpen, inAttr, done; };
static int x_calls, x_fail = -1, x_live; static bool x_failed; static XNode* x_doc; static std::string x_written;
static bool x_fault() { if (x_calls++ == x_fail) { x_failed = true; return true; } return false; }
static XWriter* W(xmlTextWriterPtr w) { return (XWriter*)w; }
static const char* CC(const xmlChar* s) { return (const char*)s; }
extern "C" {
xmlOutputBufferPtr xmlOutputBufferCreateIO(xmlOutputWriteCallback w, xmlOutputCloseCallback c, void* ctxt, xmlCharEncodingHandlerPtr) {
    if (x_fault()) return nullptr;
    XOut* o = new XOut(); o->write = w; o->close = c; o->ctxt = ctxt; x_live++;
    return (xmlOutputBufferPtr)o;
}
int xmlOutputBufferClose(xmlOutputBufferPtr b) { if (!b) return -1; XOut* o = (XOut*)b; if (o->close) o->close(o->ctxt); delete o; x_live--; return 0; }
xmlTextWriterPtr xmlNewTextWriter(xmlOutputBufferPtr b) {
    if (x_fault()) return nullptr;
    XWriter* w = new XWriter(); w->out = (XOut*)b; w->root = new XNode(); w->cur = w->root; w->tagOpen = w->inAttr = w->done = false; x_live++;
    x_doc = w->root;
    return (xmlTextWriterPtr)w;
}
static int x_put(XWriter* w, const char* p, int n) { while (n > 0) { int r = w->out->write(w->out->ctxt, p, n); if (r <= 0) return -1; x_written.append(p, r); p += r; n -= r; } return 0; }
int xmlTextWriterFlush(xmlTextWriterPtr w) {
    if (x_fault()) return -1;
    return x_put(W(w), "<rendering of ", 14) == 0 && x_put(W(w), "the document>", 13) == 0 ? 27 : -1;
}
void xmlFreeTextWriter(xmlTextWriterPtr w) { if (!w) return; xmlOutputBufferClose((xmlOutputBufferPtr)W(w)->out); delete W(w); x_live--; }
int xmlTextWriterStartDocument(xmlTextWriterPtr, const char*, const char*, const char*) { return x_fault() ? -1 : 0; }
int xmlTextWriterEndElement(xmlTextWriterPtr w) {
    if (x_fault()) return -1;
    XWriter* x = W(w);
    if (x->cur == x->root) return -1;
    x->cur = x->cur->parent; x->tagOpen = false;
    return 0;
}
int xmlTextWriterFullEndElement(xmlTextWriterPtr w) { return xmlTextWriterEndElement(w); }
int xmlTextWriterEndDocument(xmlTextWriterPtr w) { if (x_fault()) return -1; W(w)->cur = W(w)->root; W(w)->done = true; return 0; }
int xmlTextWriterWriteComment(xmlTextWriterPtr w, const xmlChar*) { return x_fault() ? -1 : 0; }
int xmlTextWriterStartElement(xmlTextWriterPtr w, const xmlChar* name) {
    if (x_fault()) return -1;
    XWriter* x = W(w); XNode* n = new XNode();
    n->name = CC(name); n->parent = x->cur; x->cur->kids.push_back(n); x->cur = n; x->tagOpen = true;
    return 0;
}
int xmlTextWriterWriteAttribute(xmlTextWriterPtr w, const xmlChar* name, const xmlChar* v) {
    if (x_fault()) return -1;
    XWriter* x = W(w);
    if (!x->tagOpen || x->inAttr) return -1;
    x->cur->attrs.push_back(std::make_pair(std::string(CC(name)), std::string(CC(v))));
    return 0;
}
int xmlTextWriterStartAttribute(xmlTextWriterPtr w, const xmlChar* name) {
    int r = xmlTextWriterWriteAttribute(w, name, BAD_CAST ""); if (r == 0) W(w)->inAttr = true; return r;
}
int xmlTextWriterEndAttribute(xmlTextWriterPtr w) { if (x_fault()) return -1; W(w)->inAttr = false; return 0; }
int xmlTextWriterWriteString(xmlTextWriterPtr w, const xmlChar* s) {
    if (x_fault()) return -1;
    XWriter* x = W(w);
    if (x->inAttr) { x->cur->attrs.back().second += CC(s); return 0; }
    x->tagOpen = false;
    x->cur->text += CC(s);
    return 0;
}
int xmlTextWriterWriteRaw(xmlTextWriterPtr w, const xmlChar* s) {
    for (const char* p = CC(s); *p; p++) sx_assert(*p != '<' && *p != '&' && *p != '>' && *p != '"', "text is escaped");
    return xmlTextWriterWriteString(w, s);
}
int xmlTextWriterWriteElement(xmlTextWriterPtr w, const xmlChar* name, const xmlChar* s) {
    if (xmlTextWriterStartElement(w, name) == -1 || (s && xmlTextWriterWriteString(w, s) == -1)) return -1;
    return xmlTextWriterEndElement(w);
}
int xmlTextWriterWriteVFormatAttribute(xmlTextWriterPtr w, const xmlChar* name, const char* f, va_list ap) { char* s = nullptr; if (vasprintf(&s, f, ap) < 0) return -1; int r = xmlTextWriterWriteAttribute(w, name, BAD_CAST s); free(s); return r; }
int xmlTextWriterWriteFormatAttribute(xmlTextWriterPtr w, const xmlChar* name, const char* f, ...) { va_list ap; va_start(ap, f); int r = xmlTextWriterWriteVFormatAttribute(w, name, f, ap); va_end(ap); return r; }
int xmlTextWriterWriteFormatString(xmlTextWriterPtr w, const char* f, ...) { va_list ap; va_start(ap, f); char* s = nullptr; int r = vasprintf(&s, f, ap); va_end(ap); if (r < 0) return -1; r = xmlTextWriterWriteString(w, BAD_CAST s); free(s); return r; }
int xmlTextWriterWriteFormatElement(xmlTextWriterPtr w, const xmlChar* name, const char* f, ...) { va_list ap; va_start(ap, f); char* s = nullptr; int r = vasprintf(&s, f, ap); va_end(ap); if (r < 0) return -1; r = xmlTextWriterWriteElement(w, name, BAD_CAST s); free(s); return r; }
static std::string x_qname(const xmlChar* p, const xmlChar* n) { return p ? std::string(CC(p)) + ":" + CC(n) : std::string(CC(n)); }
int xmlTextWriterStartElementNS(xmlTextWriterPtr w, const xmlChar* p, const xmlChar* n, const xmlChar* uri) {
    int r = xmlTextWriterStartElement(w, BAD_CAST x_qname(p, n).c_str());
    if (r == 0 && uri) W(w)->cur->attrs.push_back(std::make_pair(p ? std::string("xmlns:") + CC(p) : std::string("xmlns"), std::string(CC(uri))));
    return r;
}
int xmlTextWriterWriteAttributeNS(xmlTextWriterPtr w, const xmlChar* p, const xmlChar* n, const xmlChar*, const xmlChar* v) { return xmlTextWriterWriteAttribute(w, BAD_CAST x_qname(p, n).c_str(), v); }
int xmlTextWriterWriteElementNS(xmlTextWriterPtr w, const xmlChar* p, const xmlChar* n, const xmlChar*, const xmlChar* s) { return xmlTextWriterWriteElement(w, BAD_CAST x_qname(p, n).c_str(), s); }
int xmlTextWriterWriteRawLen(xmlTextWriterPtr w, const xmlChar* s, int n) { return xmlTextWriterWriteRaw(w, BAD_CAST std::string(CC(s), n).c_str()); }
int xmlTextWriterWriteCDATA(xmlTextWriterPtr w, const xmlChar* s) { sx_assert(!strstr(CC(s), "]]>"), "text is escaped"); return xmlTextWriterWriteString(w, s); }
int xmlTextWriterStartComment(xmlTextWriterPtr) { return x_fault() ? -1 : 0; }
int xmlTextWriterEndComment(xmlTextWriterPtr) { return x_fault() ? -1 : 0; }
int xmlTextWriterSetIndentString(xmlTextWriterPtr, const xmlChar*) { return 0; }
int xmlTextWriterSetIndent(xmlTextWriterPtr, int) { return 0; }
}
static bool x_same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static bool x_attr(XNode* n, const char* name, const std::string& v) { int k = 0; bool ok = false; if (n) for (auto& a : n->attrs) if (a.first == name) { k++; ok = x_same(a.second, v); } return k == 1 && ok; }
static XNode* x_kid(XNode* n, size_t i, const char* name) { return n && i < n->kids.size() && n->kids[i]->name == name ? n->kids[i] : nullptr; }
