/* Families of library functions, on top of the few that a harness defines: a change to the code that uses another
   member of the family (fputs for fwrite, xmlStrEqual for strcmp) meets the same stand-in.  Everything is weak: a
   definition in the harness wins. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/types.h>
#include <sys/uio.h>
#define WK __attribute__((weak))
extern size_t vf_fwrite(const void*, size_t, size_t, FILE*) WK;
extern size_t vf_fread(void*, size_t, size_t, FILE*) WK;
extern int vf_fseek(FILE*, long, int) WK;
extern long vf_ftell(FILE*) WK;
extern ssize_t vf_write(int, const void*, size_t) WK;
extern ssize_t vf_read(int, void*, size_t) WK;
extern int vf_open(const char*, int, ...) WK;
static int console(FILE* f) { return f == stderr || f == stdout; }
WK int vf_fputs(const char* s, FILE* f) { size_t n = strlen(s); return console(f) || !n || vf_fwrite(s, 1, n, f) == n ? 1 : EOF; }
WK int vf_fputs_unlocked(const char* s, FILE* f) { return vf_fputs(s, f); }
WK int vf_fputc(int c, FILE* f) { char b = (char)c; return console(f) || vf_fwrite(&b, 1, 1, f) == 1 ? (unsigned char)c : EOF; }
WK int vf_putc(int c, FILE* f) { return vf_fputc(c, f); }
WK int vf__IO_putc(int c, FILE* f) { return vf_fputc(c, f); }
WK int vf_putc_unlocked(int c, FILE* f) { return vf_fputc(c, f); }
WK int vf_fputc_unlocked(int c, FILE* f) { return vf_fputc(c, f); }
WK size_t vf_fwrite_unlocked(const void* p, size_t s, size_t n, FILE* f) { return vf_fwrite(p, s, n, f); }
WK int vf_vfprintf(FILE* f, const char* fmt, va_list ap) {
    char* s = 0;
    int n, ok;
    if (console(f)) return 0;
    n = vasprintf(&s, fmt, ap);
    if (n < 0) return -1;
    ok = n == 0 || vf_fwrite(s, 1, n, f) == (size_t)n;
    free(s);
    return ok ? n : -1;
}
WK int vf_fprintf(FILE* f, const char* fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = vf_vfprintf(f, fmt, ap); va_end(ap); return n; }
WK int vf_fgetc(FILE* f) { unsigned char b; return vf_fread(&b, 1, 1, f) == 1 ? b : EOF; }
WK int vf_getc(FILE* f) { return vf_fgetc(f); }
WK int vf__IO_getc(FILE* f) { return vf_fgetc(f); }
WK int vf_getc_unlocked(FILE* f) { return vf_fgetc(f); }
WK size_t vf_fread_unlocked(void* p, size_t s, size_t n, FILE* f) { return vf_fread(p, s, n, f); }
WK char* vf_fgets(char* d, int n, FILE* f) {
    int i = 0;
    while (i + 1 < n) { int c = vf_fgetc(f); if (c == EOF) break; d[i++] = (char)c; if (c == '\n') break; }
    if (i == 0) return 0;
    d[i] = 0;
    return d;
}
WK void vf_rewind(FILE* f) { vf_fseek(f, 0, SEEK_SET); }
WK int vf_fseeko(FILE* f, off_t o, int w) { return vf_fseek(f, o, w); }
WK int vf_fseeko64(FILE* f, off_t o, int w) { return vf_fseek(f, o, w); }
WK off_t vf_ftello(FILE* f) { return vf_ftell(f); }
WK off_t vf_ftello64(FILE* f) { return vf_ftell(f); }
WK ssize_t vf_send(int fd, const void* p, size_t n, int fl) { return vf_write(fd, p, n); }
WK ssize_t vf_recv(int fd, void* p, size_t n, int fl) { return vf_read(fd, p, n); }
WK int vf_creat(const char* p, mode_t m) { return vf_open(p, 01 | 0100 | 01000, m); }
/* libxml2's texts */
typedef unsigned char xc;
#define C(s) ((const char*)(s))
WK int xmlStrcmp(const xc* a, const xc* b) { return a == b ? 0 : !a ? -1 : !b ? 1 : strcmp(C(a), C(b)); }
WK int xmlStrEqual(const xc* a, const xc* b) { return a == b || (a && b && strcmp(C(a), C(b)) == 0); }
WK int xmlStrncmp(const xc* a, const xc* b, int n) { return n <= 0 || a == b ? 0 : !a ? -1 : !b ? 1 : strncmp(C(a), C(b), n); }
WK int xmlStrcasecmp(const xc* a, const xc* b) { return a == b ? 0 : !a ? -1 : !b ? 1 : strcasecmp(C(a), C(b)); }
WK int xmlStrncasecmp(const xc* a, const xc* b, int n) { return n <= 0 || a == b ? 0 : !a ? -1 : !b ? 1 : strncasecmp(C(a), C(b), n); }
WK int xmlStrlen(const xc* a) { return a ? (int)strlen(C(a)) : 0; }
WK xc* xmlStrndup(const xc* a, int n) { xc* r; if (!a || n < 0) return 0; r = malloc((size_t)n + 1); if (r) { memcpy(r, a, n); r[n] = 0; } return r; }
WK xc* xmlStrdup(const xc* a) { return a ? xmlStrndup(a, (int)strlen(C(a))) : 0; }
WK xc* xmlCharStrdup(const char* a) { return xmlStrdup((const xc*)a); }
WK xc* xmlCharStrndup(const char* a, int n) { return xmlStrndup((const xc*)a, n); }
WK const xc* xmlStrchr(const xc* a, xc c) { if (a) for (; *a; a++) if (*a == c) return a; return 0; }
WK const xc* xmlStrstr(const xc* a, const xc* b) { return a && b ? (const xc*)strstr(C(a), C(b)) : 0; }
WK const xc* xmlStrcasestr(const xc* a, const xc* b) { return a && b ? (const xc*)strcasestr(C(a), C(b)) : 0; }
WK xc* xmlStrsub(const xc* a, int from, int n) { int i; if (!a || from < 0 || n < 0) return 0; for (i = 0; i < from; i++) if (!a[i]) return 0; return xmlStrndup(a + from, n); }
WK xc* xmlStrncat(xc* a, const xc* b, int n) {
    int k; xc* r;
    if (!b || !n) return a;
    if (n < 0) return 0;
    if (!a) return xmlStrndup(b, n);
    k = xmlStrlen(a); r = realloc(a, (size_t)k + n + 1);
    if (!r) return 0;
    memcpy(r + k, b, n); r[k + n] = 0;
    return r;
}
WK xc* xmlStrcat(xc* a, const xc* b) { return !b ? a : !a ? xmlStrdup(b) : xmlStrncat(a, b, xmlStrlen(b)); }
WK int xmlStrVPrintf(xc* d, int n, const char* f, va_list ap) { return d && f ? vsnprintf((char*)d, n, f, ap) : -1; }
WK int xmlStrPrintf(xc* d, int n, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = xmlStrVPrintf(d, n, f, ap); va_end(ap); return r; }
