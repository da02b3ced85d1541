// Expression trees built from concrete shapes with arbitrary labels, next to a plain model of the same tree.
#pragma once
#include <sx.h>
#include <string>
#include <vector>
#include "terms.hpp"
#include "mws/types/CmmlToken.hpp"
using mws::types::CmmlToken;
struct Model {
    std::string tag, text;          // text after dropping white space
    std::string name; bool hasName; // attribute "name"
    std::vector<Model*> kids;
    Model* parent; int pos;         // pos: number among its siblings, from 1
    CmmlToken* tok;
};
static Model* new_model(Model* p) {
    Model* m = new Model();
    m->parent = p; m->hasName = false; m->tok = nullptr;
    if (p) p->kids.push_back(m);
    m->pos = p ? (int)p->kids.size() : 1;
    return m;
}
// nodes in pre-order from an arity sequence
static Model* model_of(const std::vector<int>& shape, std::vector<Model*>& nodes) {
    std::vector<std::pair<Model*, int>> open;
    Model* root = nullptr;
    for (size_t i = 0; i < shape.size(); i++) {
        while (!open.empty() && open.back().second == 0) open.pop_back();
        Model* m = new_model(open.empty() ? nullptr : open.back().first);
        if (open.empty()) root = m; else open.back().second--;
        nodes.push_back(m);
        open.push_back(std::make_pair(m, shape[i]));
    }
    return root;
}
static void build_into(Model* m, CmmlToken* t) {
    m->tok = t;
    t->setTag(m->tag);
    if (m->hasName) t->addAttribute("name", m->name);
    if (!m->text.empty()) t->appendTextContent(m->text.data(), m->text.size());
    for (auto k : m->kids) build_into(k, t->newChildNode());
}
static CmmlToken* build(Model* m) {
    CmmlToken* t = CmmlToken::newRoot();
    build_into(m, t);
    return t;
}
// equality of two byte strings without a case split on every byte
static bool same_bytes(const std::string& a, const std::string& b) {
    if (a.size() != b.size()) return false;
    bool eq = true;
    for (size_t i = 0; i < a.size(); i++) eq = eq & (a[i] == b[i]);
    return eq;
}
static bool is_space(unsigned char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
