// json-c stand-in: builds a plain tree that the harness can inspect.
#pragma once
#include <sx.h>
#include <string.h>
#include <string>
#include <vector>
#include <json-c/json.h>
struct JNode { char kind; int refs; int id; std::string s; int64_t i; double d; std::vector<std::pair<std::string, JNode*>> fields; std::vector<JNode*> items; std::string out; };
static int j_live, j_ids; static JNode* j_rendered; static JNode* j_last; static std::vector<JNode*> j_all; // every rendering so far
static JNode* j_new(char kind) { JNode* n = new JNode(); n->kind = kind; n->refs = 1; n->id = ++j_ids; j_live++; return n; }
static JNode* J(struct json_object* o) { return (JNode*)o; }
static JNode* JC(const struct json_object* o) { return (JNode*)o; }
static struct json_object* JO(JNode* n) { return (struct json_object*)n; }
// a copy that survives the release of the document
static JNode* j_copy(JNode* n) {
    if (!n) return nullptr;
    JNode* c = new JNode(*n);
    for (auto& f : c->fields) f.second = j_copy(f.second);
    for (auto& x : c->items) x = j_copy(x);
    return c;
}
extern "C" {
int json_object_put(struct json_object* o) {
    JNode* n = J(o);
    if (!n) return 0;
    sx_assert(n->refs > 0, "a JSON value is released once");
    if (--n->refs) return 0;
    for (auto& f : n->fields) json_object_put(JO(f.second));
    for (auto& x : n->items) json_object_put(JO(x));
    j_live--;
    delete n;
    return 1;
}
struct json_object* json_object_get(struct json_object* o) { if (o) J(o)->refs++; return o; }
struct json_object* json_object_new_object(void) { return JO(j_new('o')); }
struct json_object* json_object_new_array(void) { return JO(j_new('a')); }
struct json_object* json_object_new_array_ext(int) { return JO(j_new('a')); }
struct json_object* json_object_new_string(const char* s) { JNode* n = j_new('s'); n->s = s; return JO(n); }
struct json_object* json_object_new_string_len(const char* s, int len) { JNode* n = j_new('s'); n->s.assign(s, len); return JO(n); }
struct json_object* json_object_new_int(int32_t i) { JNode* n = j_new('i'); n->i = i; return JO(n); }
struct json_object* json_object_new_int64(int64_t i) { JNode* n = j_new('i'); n->i = i; return JO(n); }
struct json_object* json_object_new_uint64(uint64_t i) { JNode* n = j_new('i'); n->i = (int64_t)i; return JO(n); }
struct json_object* json_object_new_boolean(json_bool b) { JNode* n = j_new('b'); n->i = !!b; return JO(n); }
struct json_object* json_object_new_double(double d) { JNode* n = j_new('d'); n->d = d; return JO(n); }
int json_object_object_add(struct json_object* o, const char* key, struct json_object* v) {
    JNode* n = J(o);
    sx_assert(n->kind == 'o', "fields are added to JSON objects");
    for (auto& f : n->fields) if (f.first == key) { json_object_put(JO(f.second)); f.second = J(v); return 0; }
    n->fields.push_back(std::make_pair(std::string(key), J(v)));
    return 0;
}
int json_object_object_add_ex(struct json_object* o, const char* key, struct json_object* v, unsigned) { return json_object_object_add(o, key, v); }
int json_object_array_add(struct json_object* o, struct json_object* v) { sx_assert(J(o)->kind == 'a', "items are added to JSON arrays"); J(o)->items.push_back(J(v)); return 0; }
int json_object_array_put_idx(struct json_object* o, size_t i, struct json_object* v) { JNode* n = J(o); sx_assert(n->kind == 'a', "items are added to JSON arrays"); if (i >= n->items.size()) n->items.resize(i + 1, nullptr); json_object_put(JO(n->items[i])); n->items[i] = J(v); return 0; }
struct json_object* json_object_array_get_idx(const struct json_object* o, size_t i) { return i < JC(o)->items.size() ? JO(JC(o)->items[i]) : nullptr; }
int json_object_object_get_ex(const struct json_object* o, const char* key, struct json_object** v) { if (v) *v = nullptr; if (o && JC(o)->kind == 'o') for (auto& f : JC(o)->fields) if (f.first == key) { if (v) *v = JO(f.second); return 1; } return 0; }
struct json_object* json_object_object_get(const struct json_object* o, const char* key) { struct json_object* v; json_object_object_get_ex(o, key, &v); return v; }
size_t json_object_array_length(const struct json_object* o) { return JC(o)->items.size(); }
// the rendering stands for the whole value; it stays valid as long as the value
const char* json_object_to_json_string(struct json_object* o) {
    JNode* n = J(o);
    n->out = "<rendering of JSON value number " + std::to_string(n->id) + ">";
    j_rendered = j_copy(n); j_rendered->out = n->out; j_all.push_back(j_rendered);
    return n->out.c_str();
}
const char* json_object_to_json_string_ext(struct json_object* o, int) { return json_object_to_json_string(o); }
const char* json_object_to_json_string_length(struct json_object* o, int, size_t* len) { const char* r = json_object_to_json_string(o); if (len) *len = strlen(r); return r; }
}
static bool j_text(JNode* n, const std::string& s) {
    if (!n || n->kind != 's' || n->s.size() != s.size()) return false;
    bool r = true;
    for (size_t i = 0; i < s.size(); i++) r = r & (n->s[i] == s[i]);
    return r;
}
static bool j_int(JNode* n, int64_t v) { return n && n->kind == 'i' && n->i == v; }
static JNode* j_field(JNode* n, const char* key) { if (n && n->kind == 'o') for (auto& f : n->fields) if (f.first == key) return f.second; return nullptr; }
static JNode* j_item(JNode* n, size_t i) { return n && n->kind == 'a' && i < n->items.size() ? n->items[i] : nullptr; }
static bool j_len(JNode* n, size_t k) { return n && n->kind == 'a' && n->items.size() == k; }
