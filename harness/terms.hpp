// Encoded terms (prefix codes) with concrete shapes and arbitrary token ids; query-matching oracle.
#pragma once
#include <sx.h>
#include <vector>
#include "mws/index/encoded_token.h"
typedef std::vector<encoded_token_t> Code;
// all trees with 1..n nodes and arity <= maxar, as arity sequences, enumerated once
static void shapes_rec(std::vector<std::vector<int>>& out, std::vector<int>& cur, int open, int left, int maxar) {
    if (open == 0) { out.push_back(cur); return; }
    for (int a = 0; a <= maxar; a++) {
        if (open - 1 + a > left - 1) break;
        cur.push_back(a);
        shapes_rec(out, cur, open - 1 + a, left - 1, maxar);
        cur.pop_back();
    }
}
static std::vector<std::vector<int>> shapes(int n, int maxar) {
    std::vector<std::vector<int>> out; std::vector<int> cur;
    shapes_rec(out, cur, 1, n, maxar);
    return out;
}
// end of the subterm starting at position p of a well-formed code
static size_t subterm_end(const Code& c, size_t p) {
    int open = 1;
    while (open > 0) { open += (int)c[p].arity - 1; p++; }
    return p;
}
static bool same_range(const Code& a, size_t p, size_t pe, const Code& b, size_t q, size_t qe) {
    if (pe - p != qe - q) return false;
    bool eq = true;
    for (size_t i = 0; i < pe - p; i++) eq = eq & (a[p + i].arity == b[q + i].arity) & (a[p + i].id == b[q + i].id);
    return eq;
}
