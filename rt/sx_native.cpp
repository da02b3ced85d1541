// Native side of the harness interface: replays one recorded input.
//   prog <file>        file: lines "name n hexbytes" in call order
// exit 0: path finished, 77: an assumption is not met, 99: assertion failed (message on stderr)
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/mman.h>
struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In> ins;
static size_t pos;
extern "C" {
void sx_sym(void* p, size_t n, const char* name) {
    if (pos >= ins.size()) { memset(p, 0, n); return; }
    In& i = ins[pos++];
    if (i.b.size() != n || i.name.compare(0, strlen(name), name) != 0) { fprintf(stderr, "REPLAY-MISMATCH %s/%zu vs %s/%zu\n", name, n, i.name.c_str(), i.b.size()); _exit(78); }
    if (n) memcpy(p, i.b.data(), n);
}
void sx_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME\n"); _exit(77); } }
void sx_assert_(int c, const char* m) { if (!c) { fflush(stdout); fprintf(stderr, "SX-ASSERT %s\n", m); _exit(99); } }
void sx_fail(const char* m) { fflush(stdout); fprintf(stderr, "SX-ASSERT %s\n", m); _exit(99); }
void sx_reach(const char* l) { (void)l; }
void sx_observe(const char* name, uint64_t v) { printf("\nOBS %s %llu\n", name, (unsigned long long)v); }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_native(void) { return 1; }
void sx_stop(void) { fflush(stdout); printf("DONE\n"); fflush(stdout); _exit(0); }
int sx_valid(const void*, size_t) { return 1; }
int sx_is_symbolic(uint64_t) { return 0; }
size_t __sanitizer_get_current_allocated_bytes(void);
uint64_t sx_live_heap(void) { return __sanitizer_get_current_allocated_bytes(); }
}
// ---- what exists when sx_share(1) is called must not change until sx_share(0)
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
extern char __start_vfbss[] __attribute__((weak)); extern char __stop_vfbss[] __attribute__((weak)); extern char __start_vfdata[] __attribute__((weak)); extern char __stop_vfdata[] __attribute__((weak));
}
namespace {
struct Blk { const void* p; size_t n; unsigned epoch; char* copy; };
const size_t CAP = 1 << 18; Blk* blk; size_t nblk; bool shared, changed; int paused; unsigned epochNow; char* sec[2];
char* page(size_t n) { return (char*)mmap(nullptr, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
char* arena; size_t arenaUsed; const size_t ARENA = 1 << 28;
char* room(size_t n) { if (!arena) arena = page(ARENA); if (arenaUsed + n > ARENA) _exit(3); char* r = arena + arenaUsed; arenaUsed += n; return r; }
__attribute__((no_sanitize("address"))) void copy(char* d, const char* s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char*)d)[i] = s[i]; }
__attribute__((no_sanitize("address"))) bool differ(const char* d, const char* s, size_t n) { for (size_t i = 0; i < n; i++) if (((volatile const char*)d)[i] != s[i]) return true; return false; }
void onMalloc(const volatile void* p, size_t n) { if (!blk || nblk >= CAP) return; Blk& b = blk[nblk++]; b.p = (const void*)p; b.n = n; b.epoch = epochNow; b.copy = nullptr; }
void onFree(const volatile void* p) {
    if (!blk || !p) return;
    for (size_t i = nblk; i-- > 0;) if (blk[i].p == p) { if (shared && !paused && blk[i].epoch < epochNow) changed = true; blk[i] = blk[--nblk]; return; }
}
void snapshot() {
    for (size_t i = 0; i < nblk; i++) if (blk[i].epoch < epochNow) { if (!blk[i].copy) blk[i].copy = room(blk[i].n); copy(blk[i].copy, (const char*)blk[i].p, blk[i].n); }
    char* b[2] = {__start_vfbss, __start_vfdata}; char* e[2] = {__stop_vfbss, __stop_vfdata};
    for (int k = 0; k < 2; k++) if (b[k]) { if (!sec[k]) sec[k] = room(e[k] - b[k]); copy(sec[k], b[k], e[k] - b[k]); }
}
void compare() {
    for (size_t i = 0; i < nblk; i++) if (blk[i].epoch < epochNow && blk[i].copy && differ(blk[i].copy, (const char*)blk[i].p, blk[i].n)) changed = true;
    char* b[2] = {__start_vfbss, __start_vfdata}; char* e[2] = {__stop_vfbss, __stop_vfdata};
    for (int k = 0; k < 2; k++) if (b[k] && sec[k] && differ(sec[k], b[k], e[k] - b[k])) changed = true;
    if (changed) sx_fail("memory shared with other requests is changed");
}
}
extern "C" void sx_share(int m) {
    if (m == 1) { epochNow++; shared = true; paused = 0; snapshot(); }
    else if (m == 0) { compare(); shared = false; }
    else if (m == 2) { if (shared && !paused) compare(); paused++; }
    else { if (paused) paused--; if (shared && !paused) snapshot(); }
}
int main(int argc, char** argv) {
    if (argc > 1) {
        FILE* f = fopen(argv[1], "r");
        if (!f) { perror(argv[1]); return 3; }
        char name[256]; unsigned n; 
        while (fscanf(f, "%255s %u", name, &n) == 2) {
            In i; i.name = name;
            int c;
            while ((c = fgetc(f)) == ' ') {}
            ungetc(c, f);
            for (unsigned k = 0; k < n; k++) { unsigned x = 0; if (fscanf(f, "%2x", &x) != 1) x = 0; i.b.push_back(x); }
            ins.push_back(i);
        }
        fclose(f);
    }
    static char outbuf[1 << 16]; setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    blk = (Blk*)page(CAP * sizeof(Blk)); __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    sx_main();
    fflush(stdout);
    printf("DONE\n");
    fflush(stdout);
    _exit(0);
}
extern "C" { __attribute__((weak)) int verbose; }
