/* C library functions for the symbolic build (plain definitions, executed symbolically). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
typedef struct { int quot, rem; } div_t; typedef struct { long quot, rem; } ldiv_t;
void* realloc(void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t); int memcmp(const void*, const void*, size_t);
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t);
static int rt_errno;
int* __errno_location(void) { return &rt_errno; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
    for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char* a, const char* b, size_t n) {
    for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
static int low(int c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) {
    for (;; a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncasecmp(const char* a, const char* b, size_t n) {
    for (; n; a++, b++, n--) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d + i; } }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(const char* s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char*)s; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void*)s; return 0; }
char* strstr(const char* h, const char* n) {
    if (!*n) return (char*)h;
    for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; }
    return 0;
}
size_t strspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { int ok = 0; for (const char* p = a; *p; p++) if (*p == s[n]) ok = 1; if (!ok) break; } return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) for (const char* p = a; *p; p++) if (*p == s[n]) return n; return n; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = malloc(n); memcpy(d, s, n); return d; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* d = malloc(n + 1); memcpy(d, s, n); d[n] = 0; return d; }
char* __strdup(const char* s) { return strdup(s); }
int isspace(int c) { return ((c == ' ')) | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalpha(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int ispunct(int c) { return isprint(c) & (c != ' ') & !isalnum(c); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int tolower(int c) { return low(c); }
int toupper(int c) { return (c >= 'a') & (c <= 'z') ? c - 32 : c; }
/* ctype tables for the <ctype.h> macros ("C" locale) */
static unsigned short rt_ctype[384]; static const unsigned short* rt_ctype_p; static int rt_lo[384], rt_up[384]; static const int *rt_lo_p, *rt_up_p;
static void rt_ctype_init(void) {
    for (int i = -128; i < 256; i++) {
        int c = i; unsigned short b = 0;
        if (isupper(c)) b |= 1 << 8; if (islower(c)) b |= 1 << 9; if (isalpha(c)) b |= 1 << 10; if (isdigit(c)) b |= 1 << 11;
        if (isxdigit(c)) b |= 1 << 12; if (isspace(c)) b |= 1 << 13; if (isprint(c)) b |= 1 << 14; if (isprint(c) && c != ' ') b |= 1 << 15;
        if (c == ' ' || c == '\t') b |= 1; if (iscntrl(c)) b |= 2; if (ispunct(c)) b |= 4; if (isalnum(c)) b |= 8;
        rt_ctype[i + 128] = b; rt_lo[i + 128] = tolower(c); rt_up[i + 128] = toupper(c);
    }
    rt_ctype_p = rt_ctype + 128; rt_lo_p = rt_lo + 128; rt_up_p = rt_up + 128;
}
const unsigned short** __ctype_b_loc(void) { if (!rt_ctype_p) rt_ctype_init(); return &rt_ctype_p; }
const int** __ctype_tolower_loc(void) { if (!rt_ctype_p) rt_ctype_init(); return &rt_lo_p; }
const int** __ctype_toupper_loc(void) { if (!rt_ctype_p) rt_ctype_init(); return &rt_up_p; }
unsigned long rt_strtoul(const char* s, char** e, int base, int sgn, int* neg, int* ovf) {
    const char* p = s; unsigned long v = 0; int any = 0;
    *neg = 0; *ovf = 0;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    for (;; p++) {
        int d; unsigned char c = *p;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break;
        any = 1;
        if (v > (~0UL - d) / base) *ovf = 1;
        v = v * base + d;
    }
    if (e) *e = (char*)(any ? p : s);
    (void)sgn;
    return v;
}
long strtol(const char* s, char** e, int b) {
    int neg, ovf; unsigned long v = rt_strtoul(s, e, b, 1, &neg, &ovf);
    if (ovf || v > (unsigned long)INT64_MAX + neg) { rt_errno = 34; return neg ? INT64_MIN : INT64_MAX; }
    return neg ? -(long)v : (long)v;
}
unsigned long strtoul(const char* s, char** e, int b) {
    int neg, ovf; unsigned long v = rt_strtoul(s, e, b, 0, &neg, &ovf);
    if (ovf) { rt_errno = 34; return ~0UL; }
    return neg ? -v : v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
double strtod(const char*, char**);
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
div_t div(int a, int b) { div_t r = {a / b, a % b}; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r = {a / b, a % b}; return r; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok_r(char* s, const char* d, char** save) {
    if (!s) s = *save;
    if (!s) return 0;
    s += strspn(s, d);
    if (!*s) { *save = s; return 0; }
    char* e = s + strcspn(s, d);
    if (*e) *e++ = 0;
    *save = e;
    return s;
}
char* __strtok_r(char* s, const char* d, char** save) { return strtok_r(s, d, save); }
static char* tok_save;
char* strtok(char* s, const char* d) { return strtok_r(s, d, &tok_save); }
char* strsep(char** sp, const char* d) {
    char* s = *sp;
    if (!s) return 0;
    char* e = s + strcspn(s, d);
    if (*e) { *e = 0; *sp = e + 1; } else *sp = 0;
    return s;
}
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
void* rawmemchr(const void* p, int c) { const unsigned char* s = p; while (*s != (unsigned char)c) s++; return (void*)s; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void* memccpy(void* d, const void* s, int c, size_t n) { for (size_t i = 0; i < n; i++) { ((char*)d)[i] = ((const char*)s)[i]; if (((const char*)s)[i] == (char)c) return (char*)d + i + 1; } return 0; }
void* memmem(const void* h, size_t hn, const void* q, size_t qn) { for (size_t i = 0; i + qn <= hn; i++) if (!memcmp((const char*)h + i, q, qn)) return (void*)((const char*)h + i); return 0; }
char* strcasestr(const char* h, const char* q) { size_t n = strlen(q); for (;; h++) { if (!strncasecmp(h, q, n)) return (char*)h; if (!*h) return 0; } }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int isascii(int c) { return !(c & ~127); }
void bzero(void* p, size_t n) { memset(p, 0, n); }
void explicit_bzero(void* p, size_t n) { memset(p, 0, n); }
void* reallocarray(void* p, size_t n, size_t m) { return realloc(p, n * m); }
/* a stable insertion sort (glibc's is a merge sort where memory allows) */
void qsort_r(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*, void*), void* arg) {
    char* b = base; char* t = malloc(w);
    for (size_t i = 1; i < n; i++) {
        size_t j = i;
        while (j && cmp(b + (j - 1) * w, b + i * w, arg) > 0) j--;
        if (j == i) continue;
        memcpy(t, b + i * w, w);
        memmove(b + (j + 1) * w, b + j * w, (i - j) * w);
        memcpy(b + j * w, t, w);
    }
    free(t);
}
static int qs_call(const void* a, const void* b, void* f) { return ((int (*)(const void*, const void*))f)(a, b); }
void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) { qsort_r(base, n, w, qs_call, (void*)cmp); }
void* bsearch(const void* key, const void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
    size_t l = 0, u = n;
    while (l < u) {
        size_t i = (l + u) / 2;
        const char* p = (const char*)base + i * w;
        int c = cmp(key, p);
        if (c < 0) u = i; else if (c > 0) l = i + 1; else return (void*)p;
    }
    return 0;
}
/* vsnprintf: %d %i %u %x %X %o %c %s %p %m %% and %f %e %g (of concrete values), with flags, width, precision, sizes */
static void outc(char* b, size_t n, size_t* k, char c) { if (*k + 1 < n) b[*k] = c; (*k)++; }
size_t vf_fmtd(char* out, size_t n, const char* spec, double v);  /* the engine */
char* strerror(int e);
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
    size_t k = 0;
    for (; *f; f++) {
        if (*f != '%') { outc(b, n, &k, *f); continue; }
        const char* start = f++;
        int zero = 0, left = 0, plus = 0, alt = 0, width = 0, prec = -1, lng = 0, hh = 0;
        for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') plus = '+'; else if (*f == ' ') plus = plus ? plus : ' '; else if (*f == '#') alt = 1; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') hh++; else break; }
        char tmp[400]; const char* s = tmp; size_t len = 0; char pre[3]; int np = 0;
        switch (*f) {
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
            unsigned long v;
            if (*f == 'd' || *f == 'i') {
                long x = lng ? va_arg(ap, long) : va_arg(ap, int);
                if (hh == 1) x = (short)x; else if (hh == 2) x = (signed char)x;
                if (x < 0) { pre[np++] = '-'; v = -(unsigned long)x; } else { v = x; if (plus) pre[np++] = plus; }
            } else {
                v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
                if (hh == 1) v = (unsigned short)v; else if (hh == 2) v = (unsigned char)v;
            }
            unsigned base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10;
            if (alt && base == 16 && v) { pre[np++] = '0'; pre[np++] = *f; }
            size_t q = sizeof tmp;
            if (base == 10 && (v || prec)) { /* small numbers are divided in 16 bits: much less work for the solver */
                while (v > 0xffff) { tmp[--q] = '0' + v % 10; v /= 10; }
                unsigned short w = (unsigned short)v;
                do { tmp[--q] = '0' + (char)(w % 10); w /= 10; } while (w);
            } else if (v || prec) do { tmp[--q] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; } while (v);
            while (prec > (int)(sizeof tmp - q) && q) tmp[--q] = '0';
            if (alt && base == 8 && (q == sizeof tmp || tmp[q] != '0')) tmp[--q] = '0';
            if (prec >= 0) zero = 0;
            s = tmp + q; len = sizeof tmp - q;
            break;
        }
        case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
            char spec[16]; int q = 0;
            spec[q++] = '%'; if (alt) spec[q++] = '#';
            if (prec >= 0) { if (prec > 60) __builtin_trap(); spec[q++] = '.'; if (prec >= 10) spec[q++] = '0' + prec / 10; spec[q++] = '0' + prec % 10; }
            spec[q++] = *f; spec[q] = 0;
            len = vf_fmtd(tmp, sizeof tmp, spec, va_arg(ap, double));
            if (*s == '-') { pre[np++] = '-'; s++; len--; } else if (plus) pre[np++] = plus;
            break;
        }
        case 'p': {
            unsigned long v = (unsigned long)va_arg(ap, void*);
            size_t q = sizeof tmp;
            if (!v) { s = "(nil)"; len = 5; break; }
            do { tmp[--q] = "0123456789abcdef"[v % 16]; v /= 16; } while (v);
            tmp[--q] = 'x'; tmp[--q] = '0';
            s = tmp + q; len = sizeof tmp - q; zero = 0;
            break;
        }
        case 'c': tmp[0] = (char)va_arg(ap, int); len = 1; zero = 0; break;
        case 's': s = va_arg(ap, const char*); if (!s) s = "(null)"; len = prec >= 0 ? strnlen(s, prec) : strlen(s); zero = 0; break;
        case 'm': s = strerror(rt_errno); len = strlen(s); zero = 0; break;
        case '%': tmp[0] = '%'; len = 1; break;
        default: (void)start; __builtin_trap();
        }
        size_t tot = len + np;
        if (left) zero = 0;
        if (!left && !zero) for (size_t i = tot; i < (size_t)width; i++) outc(b, n, &k, ' ');
        for (int i = 0; i < np; i++) outc(b, n, &k, pre[i]);
        if (zero) for (size_t i = tot; i < (size_t)width; i++) outc(b, n, &k, '0');
        for (size_t i = 0; i < len; i++) outc(b, n, &k, s[i]);
        if (left) for (size_t i = tot; i < (size_t)width; i++) outc(b, n, &k, ' ');
    }
    if (n) b[k < n ? k : n - 1] = 0;
    return (int)k;
}
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, (size_t)1 << 30, f, ap); }
int vasprintf(char** o, const char* f, va_list ap) {
    va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(0, 0, f, ap2);
    va_end(ap2);
    *o = malloc(n + 1);
    return vsnprintf(*o, n + 1, f, ap);
}
int asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); return r; }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
char* strerror(int e) { (void)e; return "error"; }
__attribute__((weak)) int verbose;  // otherwise defined by FlagParser.cpp
// ------------------------------------------------------------------ getopt
#include <getopt.h>
char* optarg; int optind = 1, opterr = 1, optopt = '?';
static char* go_next; static int go_first, go_last, go_started;
static int go_nonoption(const char* s) { return s[0] != '-' || s[1] == 0; }
static void go_exchange(char** argv) {
    // [first, last) are operands, [last, optind) options: the options come first
    int nopt = optind - go_last;
    for (int i = 0; i < nopt; i++) {
        char* o = argv[go_last + i];
        for (int j = go_last + i; j > go_first + i; j--) argv[j] = argv[j - 1];
        argv[go_first + i] = o;
    }
    go_first += nopt; go_last = optind;
}
static int go_argmissing(const char* os) { return os[0] == ':' ? ':' : '?'; }
int getopt_long(int argc, char* const* argv_, const char* os, const struct option* lo, int* li) {
    char** argv = (char**)argv_;
    optarg = 0;
    if (argc < 1) return -1;
    if (optind == 0 || !go_started) { if (optind == 0) optind = 1; go_first = go_last = optind; go_next = 0; go_started = 1; }
    int inorder = os[0] == '+' || os[0] == '-', ret = os[0] == '-';
    if (inorder) os++;
    if (!go_next || !*go_next) {
        if (go_last > optind) go_last = optind;
        if (go_first > optind) go_first = optind;
        if (!inorder) {
            if (go_first != go_last && go_last != optind) go_exchange(argv);
            else if (go_last != optind) go_first = optind;
            while (optind < argc && go_nonoption(argv[optind])) optind++;
            go_last = optind;
        }
        if (optind != argc && !strcmp(argv[optind], "--")) {
            optind++;
            if (go_first != go_last && go_last != optind) go_exchange(argv);
            else if (go_first == go_last) go_first = optind;
            go_last = argc; optind = argc;
        }
        if (optind == argc) { if (go_first != go_last) optind = go_first; return -1; }
        if (go_nonoption(argv[optind])) { if (!ret) return -1; optarg = argv[optind++]; return 1; }
        if (lo && argv[optind][1] == '-') {
            const char* n = argv[optind] + 2;
            size_t k = 0; while (n[k] && n[k] != '=') k++;
            const struct option* f = 0; int fi = 0, amb = 0;
            for (int i = 0; lo[i].name; i++) if (!strncmp(lo[i].name, n, k) && strlen(lo[i].name) == k) { f = lo + i; fi = i; }
            if (!f) for (int i = 0; lo[i].name; i++) if (!strncmp(lo[i].name, n, k)) {
                if (!f) { f = lo + i; fi = i; }
                else if (f->has_arg != lo[i].has_arg || f->flag != lo[i].flag || f->val != lo[i].val) amb = 1;
            }
            optind++; go_next = 0;
            if (!f || amb) { optopt = 0; return '?'; }
            if (n[k]) {
                if (f->has_arg) optarg = (char*)n + k + 1;
                else { optopt = f->val; return '?'; }
            } else if (f->has_arg == 1) {
                if (optind < argc) optarg = argv[optind++];
                else { optopt = f->val; return go_argmissing(os); }
            }
            if (li) *li = fi;
            if (f->flag) { *f->flag = f->val; return 0; }
            return f->val;
        }
        go_next = argv[optind] + 1;
    }
    char c = *go_next++;
    const char* t = strchr(os, c);
    if (!*go_next) optind++;
    if (!t || c == ':' || c == ';') { optopt = c; return '?'; }
    if (t[1] == ':') {
        if (t[2] == ':') {
            if (*go_next) { optarg = go_next; optind++; } else optarg = 0;
        } else if (*go_next) { optarg = go_next; optind++; }
        else if (optind == argc) { optopt = c; c = (char)go_argmissing(os); }
        else optarg = argv[optind++];
        go_next = 0;
    }
    return c;
}
int getopt(int argc, char* const* argv, const char* os) { return getopt_long(argc, argv, os, 0, 0); }
// the standard streams are never read or written here, but they are not null
static char rt_streams[3];
void *stdin = rt_streams, *stdout = rt_streams + 1, *stderr = rt_streams + 2;
/* sscanf: white space, %d %i %u %x %o (with sizes), %s %c %[..] %n, widths and suppression */
int vsscanf(const char* s, const char* f, va_list ap) {
    const char* s0 = s;
    int got = 0;
    for (; *f; f++) {
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (!*s) return got ? got : -1; if (*s++ != *f) return got; continue; }
        f++;
        int sup = 0, lng = 0, hh = 0; size_t width = 0;
        if (*f == '*') { sup = 1; f++; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j') lng = 1; else if (*f == 'h') hh++; else break; }
        if (*f == '%') { while (isspace((unsigned char)*s)) s++; if (*s++ != '%') return got; continue; }
        if (*f == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
        if (*f != 'c' && *f != '[') while (isspace((unsigned char)*s)) s++;
        if (!*s) return got ? got : -1;
        if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'o') {
            char t[80], *e; size_t n = 0;
            while (n + 1 < sizeof t && s[n] && (!width || n < width)) { t[n] = s[n]; n++; }
            t[n] = 0;
            int base = *f == 'x' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : 10;
            long v = *f == 'd' || *f == 'i' ? strtol(t, &e, base) : (long)strtoul(t, &e, base);
            if (e == t) return got;
            s += e - t;
            if (sup) continue;
            void* o = va_arg(ap, void*);
            if (lng) *(long*)o = v; else if (hh == 1) *(short*)o = (short)v; else if (hh == 2) *(char*)o = (char)v; else *(int*)o = (int)v;
            got++;
        } else if (*f == 's' || *f == 'c' || *f == '[') {
            const char* set = 0; size_t sn = 0; int neg = 0;
            if (*f == '[') { f++; if (*f == '^') { neg = 1; f++; } set = f; do sn++, f++; while (*f && *f != ']'); if (!width) width = (size_t)-1; }
            if (*f == 'c' && !width) width = 1;
            char* o = sup ? 0 : va_arg(ap, char*);
            size_t n = 0;
            for (; s[n] && (!width || n < width); n++) {
                if (set) {
                    int in = 0;
                    for (size_t i = 0; i < sn; i++) {
                        if (i && i + 1 < sn && set[i] == '-') { if ((unsigned char)s[n] >= (unsigned char)set[i - 1] && (unsigned char)s[n] <= (unsigned char)set[i + 1]) in = 1; }
                        else if (set[i] == s[n]) in = 1;
                    }
                    if (in == neg) break;
                } else if (*f == 's' && isspace((unsigned char)s[n])) break;
                if (o) o[n] = s[n];
            }
            if (!n) return got;
            if (o && *f != 'c') o[n] = 0;
            s += n;
            if (o) got++;
        } else __builtin_trap();
    }
    return got;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
