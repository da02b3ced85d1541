// P16: a JSON string literal made by escapeJsonString reads back as the original bytes.
#include <sx.h>
#include <string>
#include "common/utils/util.hpp"
#ifndef LEN
#define LEN 3
#endif
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
extern "C" void sx_main() {
    std::string in; int n = sx_pick("len", LEN + 1);
    for (int i = 0; i < n; i++) in += (char)sx_u8("byte");
    std::string e = common::utils::escapeJsonString(in), out;
    bool ok = true;
    for (size_t i = 0; i < e.size() && ok; i++) {
        unsigned char c = e[i];
        sx_assert(c >= 0x20 && c != '"', "no control character and no bare quote inside the literal");
        if (c != '\\') { out += (char)c; continue; }
        if (++i >= e.size()) { ok = false; break; }
        switch (e[i]) {
        case '\\': case '"': case '/': out += e[i]; break;
        case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
        case 'u': {
            int v = 0;
            for (int k = 1; k <= 4; k++) { int h = i + k < e.size() ? hexv(e[i + k]) : -1; if (h < 0) ok = false; v = v * 16 + h; }
            i += 4;
            if (v > 0x7f) ok = false;
            out += (char)v; sx_reach("control");
            break; }
        default: ok = false;
        }
    }
    sx_assert(ok, "every escape sequence is one that JSON knows");
    sx_assert(out.size() == in.size(), "reading the literal gives back the text");
    for (size_t i = 0; i < in.size(); i++) sx_assert(out[i] == in[i], "reading the literal gives back every byte");
    if (e.size() == in.size()) sx_reach("plain"); else sx_reach("long");
}
