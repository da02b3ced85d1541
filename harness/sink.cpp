#include <sx.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <inttypes.h>
#include <limits.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <array>
#include <tuple>
#include <forward_list>
#include <chrono>
#include <fstream>
#include <alloca.h>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <iterator>
#include <limits>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <mutex>
#include <atomic>
#include <stdexcept>
#include <cmath>
#include <bitset>
#include <utility>
#include <cassert>
int verbose;
struct B { virtual ~B() {} virtual int f() const { return 1; } }; struct D : B { int f() const override { return 2; } };
static int cmp(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
static std::string fmt(const char* f, ...) { char b[100]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); return std::string(b, n); }
static int test(int k) {
    unsigned char c = sx_u8("c"); sx_assume((c >= 'a') & (c <= 'c'));
    std::string s = std::string("x") + (char)c + "yz";
    switch (k) {
    case 0: { std::list<int> l; l.push_back(3); l.push_front(1); l.insert(std::next(l.begin()), 2); l.sort(); l.remove(2); l.reverse(); l.splice(l.end(), std::list<int>(1, 9)); return l.size() == 3 && l.back() == 9; }
    case 1: { std::unordered_map<std::string, int> m; m["a"] = 1; m["b"] = 2; m["c"] = 3; m.emplace("d", 4); return m.at(std::string(1, (char)c)) == c - 'a' + 1 && m.erase("a") == 1; }
    case 2: { std::unordered_set<int> u; for (int i = 0; i < 30; i++) u.insert(i); return u.count(c) == 0 && u.size() == 30; }
    case 3: { std::shared_ptr<B> p = std::make_shared<D>(), q = p; std::weak_ptr<B> w = q; return p->f() == 2 && q.use_count() == 2 && w.lock() && std::dynamic_pointer_cast<D>(p) != nullptr; }
    case 4: { std::ostringstream o; o << "a" << 12 << ' ' << std::hex << 255 << std::dec << std::setw(5) << std::setfill('0') << 42 << (char)c << s; return o.str() == "a12 ff00042" + std::string(1, (char)c) + s; }
    case 5: { std::istringstream i("a b\nc 12"); std::string w, x; i >> w >> x; std::string l; std::getline(i, l); std::getline(i, l, ' '); int n; i >> n; return w == "a" && x == "b" && l == "c" && n == 12; }
    case 6: { char b[40]; snprintf(b, sizeof b, "%d-%s-%5u|%-4d|%lx|%c|%%|%" PRIu64 "|%zu|%.3s|%04d", -3, "ab", 7u, 5, 255ul, 'z', (uint64_t)9, (size_t)1, "abcdef", 12); return !strcmp(b, "-3-ab-    7|5   |ff|z|%|9|1|abc|0012"); }
    case 7: { char b[20]; sprintf(b, "%s/%s", "p", s.c_str()); return s == b + 2 && fmt("%d", 12) == "12"; }
    case 8: { char b[] = "a,b,,c"; char* sv; int n = 0; for (char* t = strtok_r(b, ",", &sv); t; t = strtok_r(nullptr, ",", &sv)) n++; return n == 3; }
    case 9: { return strchr(s.c_str(), c) == s.c_str() + 1 && strstr(s.c_str(), "yz") == s.c_str() + 2 && strrchr("aba", 'a')[1] == 0 && strspn("aab", "a") == 2 && strcspn("abc", "c") == 2 && strpbrk("abc", "cb")[0] == 'b' && memchr("abc", 'c', 3) && strncmp("abc", "abd", 2) == 0 && strcasecmp("aB", "Ab") == 0 && strnlen("abc", 2) == 2; }
    case 10: { int a[] = {3, 1, 2}; qsort(a, 3, sizeof *a, cmp); int key = 2; return a[0] == 1 && (int*)bsearch(&key, a, 3, sizeof *a, cmp) == a + 1; }
    case 11: { std::vector<int> v{3, 1, 2}; std::sort(v.begin(), v.end()); std::stable_sort(v.begin(), v.end(), std::greater<int>()); auto it = std::find_if(v.begin(), v.end(), [](int x) { return x == 1; }); std::reverse(v.begin(), v.end()); return it != v.end() && std::accumulate(v.begin(), v.end(), 0) == 6 && std::lower_bound(v.begin(), v.end(), 2) == v.begin() + 1 && std::all_of(v.begin(), v.end(), [](int x) { return x > 0; }) && std::count_if(v.begin(), v.end(), [](int x) { return x > 1; }) == 2 && std::max_element(v.begin(), v.end()) == v.begin() + 2; }
    case 12: { std::vector<std::string> v{"b", "a"}; std::transform(v.begin(), v.end(), v.begin(), [](std::string x) { return x + "!"; }); v.erase(std::remove(v.begin(), v.end(), "a!"), v.end()); std::vector<std::string> w; std::copy(v.begin(), v.end(), std::back_inserter(w)); return w.size() == 1 && w[0] == "b!" && std::equal(v.begin(), v.end(), w.begin()); }
    case 13: { std::map<std::string, std::vector<int>> m; m["k"].push_back(1); m.insert({"j", {2}}); m.emplace("i", std::vector<int>(3)); auto r = m.equal_range("j"); return m.begin()->second.size() == 3 && r.first->second[0] == 2 && m.lower_bound("jj")->first == "k" && m.rbegin()->first == "k"; }
    case 14: { std::multimap<int, char> m; m.insert({1, 'a'}); m.insert({1, 'b'}); std::multiset<int> t{1, 1}; std::set<std::pair<int, int>> p; p.insert({1, 2}); return m.count(1) == 2 && t.count(1) == 2 && p.count({1, 2}); }
    case 15: { std::deque<int> d; for (int i = 0; i < 200; i++) { d.push_back(i); d.push_front(-i); } d.pop_front(); std::queue<int> q; q.push(1); std::priority_queue<int> h; h.push(1); h.push(5); std::stack<std::string, std::vector<std::string>> st; st.push("a"); st.emplace("b"); return d.size() == 399 && h.top() == 5 && st.top() == "b"; }
    case 16: { std::function<int(int)> f = [&](int x) { return x ? x + f(x - 1) : 0; }; auto g = std::bind(f, std::placeholders::_1); return f(4) == 10 && g(3) == 6 && std::mem_fn(&std::string::size)(s) == 4; }
    case 17: { return std::stoi("42") == 42 && std::stoul("7") == 7 && std::stoll("-5") == -5 && std::stod("1.5") == 1.5 && std::to_string(-12) == "-12" && std::to_string(3ul) == "3" && strtoul("12x", nullptr, 10) == 12 && strtoll("-9", nullptr, 0) == -9 && atol("8") == 8 && strtod("2.5", nullptr) == 2.5 && std::to_string(1.5) == "1.500000"; }
    case 18: { try { std::stoi("x"); } catch (std::invalid_argument&) { try { throw std::out_of_range("r"); } catch (std::exception& e) { try { std::vector<int>().at(3); } catch (...) { return !strcmp(e.what(), "r"); } } } return 0; }
    case 19: { std::mutex m; { std::lock_guard<std::mutex> g(m); } { std::unique_lock<std::mutex> u(m); u.unlock(); } std::atomic<int> a(1); a++; a.fetch_add(2); int e = 4; bool ok = a.compare_exchange_strong(e, 9); return ok && a.load() == 9; }
    case 20: { s.append(3, 'q').insert(1, "mm").replace(0, 2, "RR").erase(2, 1); s.push_back('!'); s.resize(s.size() + 1, 'w'); std::string t = s.substr(2); t.swap(s); return s.find_first_of("q") != s.npos && s.find_last_of('w') == s.size() - 1 && s.rfind("!w") == s.size() - 2 && s.find_first_not_of("zzz") == 0 && s.compare(0, 1, std::string(1, (char)c)) == 0 && s.back() == 'w' && t.front() == 'R' && s.find(c) == 0; }
    case 21: { std::unique_ptr<int[]> a(new int[3]()); std::unique_ptr<FILE, int (*)(FILE*)> f(nullptr, fclose); std::array<int, 3> r{{1, 2, 3}}; auto t = std::make_tuple(1, std::string("a")); int x; std::string y; std::tie(x, y) = t; std::bitset<8> b(5); return a[0] == 0 && r.at(1) == 2 && y == "a" && b.count() == 2 && std::get<0>(t) == x; }
    case 22: { return isdigit('3') && isalpha(c) && toupper(c) == c - 32 && tolower('A') == 'a' && isspace('\n') && isalnum('z') && ispunct('!') && isxdigit('f') && !isupper(c) && islower(c); }
    case 23: { return std::min(1, 2) == 1 && std::max({1, 5, 3}) == 5 && std::numeric_limits<uint32_t>::max() == 0xffffffffu && std::abs(-2) == 2 && std::floor(1.5) == 1 && std::pow(2, 3) == 8 && std::isnan(NAN) && !std::isinf(1.0) && std::fabs(-1.0) == 1 && ceil(1.2) == 2 && round(1.5) == 2 && log2(8) == 3; }
    case 24: { std::cerr << "text " << 1 << std::endl; std::cout << s << std::flush; std::clog << "x\n"; fputs("a", stderr); fputc('b', stderr); putc('c', stderr); puts("d"); putchar('e'); fflush(stderr); perror("f"); printf("%s\n", s.c_str()); fprintf(stderr, "%m"); return 1; }
    case 25: { char* p = strdup("abc"); char* q = strndup("abc", 2); p = (char*)realloc(p, 10); strcat(p, "d"); strncat(p, "efg", 1); char b[10]; strcpy(b, p); strncpy(b, "zz", 2); char* z = (char*)calloc(2, 2); bool ok = !strcmp(b, "zzcde") && !strcmp(q, "ab") && !z[3]; memmove(b + 1, b, 3); stpcpy(b, "k"); free(p); free(q); free(z); return ok; }
    case 26: { std::stringstream ss; ss << "1 2 3"; std::vector<int> v((std::istream_iterator<int>(ss)), std::istream_iterator<int>()); std::ostringstream o; std::copy(v.begin(), v.end(), std::ostream_iterator<int>(o, ",")); return v.size() == 3 && o.str() == "1,2,3,"; }
    case 27: { std::string t(std::move(s)); std::vector<std::unique_ptr<B>> v; v.emplace_back(new D); v.push_back(std::unique_ptr<B>(new B)); for (const auto& x : v) if (!x->f()) return 0; std::vector<bool> bb(10); bb[3] = true; bb.flip(); return t.size() == 4 && !bb[3] && std::find(bb.begin(), bb.end(), false) != bb.end(); }
    case 28: { std::vector<int> a{1, 3}, b{2, 3}, r; std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); r.erase(std::unique(r.begin(), r.end()), r.end()); std::rotate(r.begin(), r.begin() + 1, r.end()); std::iota(a.begin(), a.end(), 5); std::partial_sum(a.begin(), a.end(), a.begin()); std::nth_element(r.begin(), r.begin() + 1, r.end()); return a[1] == 11 && std::mismatch(a.begin(), a.end(), b.begin()).first == a.begin() && std::is_sorted(a.begin(), a.end()) && std::distance(a.begin(), a.end()) == 2; }
    case 29: { std::ostringstream o; o.str("x"); o.str(""); o.clear(); o.put('a'); o.write("bc", 2); o << true << std::boolalpha << true << 1.5 << (void*)0 << (unsigned char)'q' << -1l << 7ull; bool ok = o.good() && o.tellp() > 0; std::istringstream i("ab"); char ch; i.get(ch); int pk = i.peek(); i.read(&ch, 1); return ok && pk == 'b' && ch == 'b' && !i.eof(); }
    case 31: { static const struct { const char* n; int v; } tab[] = {{"a", 1}, {"b", 2}, {"c", 3}}; int r = 0; for (const auto& t : tab) if (t.n[0] == (char)c) r = t.v; return r == c - 'a' + 1; }
    case 32: { enum class E : uint8_t { X, Y, Z }; auto f = [](E e) -> const char* { switch (e) { case E::X: return "x"; case E::Y: return "y"; case E::Z: return "z"; } return nullptr; }; return *f((E)(c - 'a')) == c - 'a' + 'x'; }
    case 33: { struct Bf { unsigned a : 3, b : 13; uint16_t d; } __attribute__((packed)); Bf x{}; x.a = c; x.b = c * 3; x.d = c; union { Bf y; unsigned char z[4]; } u; u.y = x; return u.y.b == c * 3 && u.y.a == (c & 7) && u.z[2] == c; }
    case 34: { int n = c - 'a' + 1; int vla[n]; for (int i = 0; i < n; i++) vla[i] = i; char* al = (char*)alloca(n); memset(al, 1, n); return vla[n - 1] == n - 1 && al[n - 1] == 1; }
    case 35: return 1;
    case 36: { static std::map<int, std::string> m = {{1, "one"}, {2, "two"}}; thread_local int tl = 4; tl++; static int cnt; return m[1] == "one" && tl == 5 && ++cnt == 1; }
    case 37: { alignas(16) char buf[sizeof(std::string)]; auto* p = new (buf) std::string("hi"); bool ok = *p == "hi"; using S = std::string; p->~S(); return ok; }
    case 38: { auto t = std::chrono::steady_clock::now(); auto u = std::chrono::steady_clock::now() - t; return std::chrono::duration_cast<std::chrono::milliseconds>(u).count() >= 0; }
    case 39: { std::forward_list<int> f; f.push_front(2); f.push_front(1); f.insert_after(f.begin(), 7); std::unordered_multimap<int, int> m; m.emplace(1, 2); m.emplace(1, 3); auto r = m.equal_range(1); return std::distance(r.first, r.second) == 2 && *std::next(f.begin()) == 7; }
    case 40: { struct G { int* p; ~G() { (*p)++; } }; int n = 0; try { G g{&n}; G h{&n}; throw 3; } catch (int x) { n += x; } return n == 5; }
    case 41: { std::string t; for (std::string::const_reverse_iterator i = s.crbegin(); i != s.crend(); ++i) t += *i; std::replace(t.begin(), t.end(), 'z', 'q'); t.erase(std::remove_if(t.begin(), t.end(), [](char x) { return x == 'x'; }), t.end()); std::transform(t.begin(), t.end(), t.begin(), ::toupper); return t == std::string("QY") + (char)(c - 32); }
    case 42: { int a[3] = {1, 2, 3}; return std::accumulate(std::begin(a), std::end(a), std::string(), [](std::string x, int y) { return x + std::to_string(y); }) == "123" && std::inner_product(a, a + 3, a, 0) == 14 && std::any_of(a, a + 3, [](int x) { return x == 2; }) && std::none_of(a, a + 3, [](int x) { return x > 5; }) && *std::min_element(a, a + 3) == 1 && std::binary_search(a, a + 3, 2) && std::for_each(a, a + 3, [](int& x) { x++; }) && a[0] == 2 && std::find(a, a + 3, 9) == a + 3 && std::fill_n(a, 2, 0) == a + 2 && std::search(s.begin(), s.end(), s.begin() + 2, s.end()) == s.begin() + 2; }
    case 43: { std::shared_ptr<int> p(new int(4), [](int* x) { delete x; }); std::unique_ptr<char, void (*)(void*)> q((char*)malloc(3), free); std::unique_ptr<B> b(new D); auto r = std::move(b); std::shared_ptr<B> sp = std::static_pointer_cast<B>(std::make_shared<D>()); return *p == 4 && !b && r->f() == 2 && sp->f() == 2 && typeid(*sp) == typeid(D); }
    case 44: { char b[8] = "a=b;c"; char* p = b; int n = 0; while (strsep(&p, ";=")) n++; int x; char w[10]; unsigned u; int r = sscanf("12 ab 7", "%d %9s %u", &x, w, &u); return n == 3 && r == 3 && x == 12 && u == 7 && !strcmp(w, "ab"); }
    case 45: { std::set<std::string, std::greater<std::string>> g{"a", "b"}; auto cmp = [](const std::string& a, const std::string& b) { return a.size() < b.size(); }; std::map<std::string, int, decltype(cmp)> m(cmp); m["aa"] = 1; m["b"] = 2; return *g.begin() == "b" && m.begin()->second == 2; }
    case 46: { std::hash<int> h; size_t x = h(5) ^ std::hash<const void*>()(nullptr); std::vector<std::pair<int, std::string>> v; v.emplace_back(2, "b"); v.emplace_back(1, "a"); std::sort(v.begin(), v.end()); std::vector<std::vector<int>> vv(3, std::vector<int>(2, 7)); v.insert(v.begin(), {0, "z"}); v.reserve(40); v.shrink_to_fit(); v.assign(2, {1, "q"}); return x == x && vv[2][1] == 7 && v.back().second == "q" && v.data()->first == 1; }
    case 47: { std::ifstream f("/nonexistent/none"); std::string l; int n = 0; while (std::getline(f, l)) n++; return !f.is_open() || n == 0; }
    case 30: { size_t n; char b[20]; strcpy(b, "abc"); n = strlen(b); std::string v(b, n); std::string w(v.rbegin(), v.rend()); std::string x{'a', 'b'}; return w == "cba" && x < v && v >= x && "a" + v != v && std::hash<std::string>()("a") == std::hash<std::string>()("a") && v.capacity() >= 3 && std::string::npos > 5; }
    }
    return 1;
}
extern "C" void sx_main(void) { int k = K; int r = test(k); if (!r) { fprintf(stderr, "case %d\n", k); sx_assert(false, "case"); } sx_observe("k", k); sx_reach("done"); }
