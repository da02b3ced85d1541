// P22: walking directories, reading files, creating directories, small text helpers.
#include <sx.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include "common/utils/util.hpp"
#include "mws/index/IndexBuilder.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"
using std::string; using std::vector;
int verbose;
struct Node { string name; unsigned char type; vector<Node*> sub; };
static Node* root; static bool unknownTypes; static int faultAt, nfaults, opened, openDirs;
static bool fault() { if (faultAt < 0) return false; return nfaults++ == faultAt; }
static bool faulted() { return faultAt >= 0 && nfaults > faultAt; }
static Node* look(const string& path) { // "." and empty components mean the directory itself
    Node* n = nullptr; size_t i = 0; bool first = true;
    while (i <= path.size()) {
        size_t j = path.find('/', i); if (j == string::npos) j = path.size();
        string c = path.substr(i, j - i); i = j + 1;
        if (first) { if (c != "r") return nullptr; n = root; first = false; continue; }
        if (c.empty() || c == ".") continue;
        if (n->type != DT_DIR) return nullptr;
        Node* f = nullptr;
        for (Node* s : n->sub) if (s->name == c) f = s;
        if (!f) return nullptr;
        n = f;
    }
    return n;
}
struct Dir { Node* n; unsigned pos; bool open; struct dirent e; };
static vector<string> loaded; static string lastOpened;
static string data; static size_t dataPos, statSize; static bool readBad, readEnd, freeReads, isShort;
static int fdOpen;
struct MemStream { char** buf; size_t* n; bool open; };
extern "C" {
DIR* vf_opendir(const char* path) {
    if (fault()) { errno = EACCES; return nullptr; }
    Node* n = look(path); if (!n) { errno = ENOENT; return nullptr; } if (n->type != DT_DIR) { errno = ENOTDIR; return nullptr; }
    Dir* d = new Dir(); d->n = n; d->open = true; openDirs++; return (DIR*)d;
}
static bool next(Dir* d) {
    if (d->pos >= d->n->sub.size() + 2) return false;
    string name = d->pos == 0 ? "." : d->pos == 1 ? ".." : d->n->sub[d->pos - 2]->name;
    strcpy(d->e.d_name, name.c_str()); d->e.d_type = unknownTypes ? (unsigned char)DT_UNKNOWN : d->pos < 2 ? (unsigned char)DT_DIR : d->n->sub[d->pos - 2]->type;
    d->e.d_ino = 1; d->pos++; return true;
}
int vf_readdir_r(DIR* dir, struct dirent* e, struct dirent** res) {
    Dir* d = (Dir*)dir; sx_assert(d->open, "an open directory is read");
    if (fault()) { *res = nullptr; return EIO; }
    if (!next(d)) { *res = nullptr; return 0; }
    memcpy(e, &d->e, sizeof *e); *res = e; return 0;
}
struct dirent* vf_readdir(DIR* dir) {
    Dir* d = (Dir*)dir; sx_assert(d->open, "an open directory is read");
    if (fault()) { errno = EIO; return nullptr; }
    return next(d) ? &d->e : nullptr;
}
int vf_closedir(DIR* dir) { Dir* d = (Dir*)dir; sx_assert(d->open, "a directory is closed once"); d->open = false; openDirs--; delete d; if (fault()) { errno = EIO; return -1; } return 0; }
static int statNode(const char* path, struct stat* s) {
    if (fault()) { errno = EIO; return -1; }
    Node* n = look(path); if (!n) { errno = ENOENT; return -1; }
    memset(s, 0, sizeof *s); s->st_mode = DTTOIF(n->type) | 0644; return 0;
}
static int mkKind, mkErr, accessRW, statFails, made;
int vf_lstat(const char* path, struct stat* s) { return statNode(path, s); }
int vf_stat(const char* path, struct stat* s) {
    if (!root) { if (statFails) { errno = EIO; return -1; } memset(s, 0, sizeof *s); s->st_mode = (unsigned)mkKind | 0755; return 0; }
    return statNode(path, s);
}
int vf_fstat(int fd, struct stat* s) { sx_assert(fd == 7 && fdOpen == 1, "status of the open file"); if (fault()) { errno = EIO; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)statSize; return 0; }
int vf_open(const char* path, int flags, ...) {
    sx_assert((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "opened for reading only");
    sx_assert(fdOpen == 0, "one file at a time");
    if (fault()) { errno = EACCES; return -1; }
    if (root) { Node* n = look(path); sx_assert(n && n->type == DT_REG, "an existing file is opened"); }
    lastOpened = path; fdOpen = 1; opened++; return 7;
}
int vf_close(int fd) { sx_assert(fd == 7 && fdOpen == 1, "a descriptor is closed once"); fdOpen = 0; return 0; }
#ifdef LONGREAD
static size_t atOnce, badAfter = (size_t)-1;
#endif
ssize_t vf_read(int fd, void* p, size_t n) {
    sx_assert(fd == 7 && fdOpen == 1, "the open file is read");
    sx_assert(!readBad && !readEnd, "no read after a failure or the end");
    size_t left = data.size() - dataPos, m = n < left ? n : left, k = m;
#ifdef LONGREAD
    if (m > 0) { k = m > atOnce ? atOnce : m; if (dataPos >= badAfter) { readBad = true; errno = EIO; return -1; } } else if (n > 0) readEnd = true;
    if (k) memcpy(p, data.data() + dataPos, k);
    dataPos += k; return (ssize_t)k;
#endif
    if (m > 0) { k = 1 + sx_pick("read", m + 1); if (k == m + 1) { readBad = true; errno = EIO; return -1; } }
    else if (n > 0) readEnd = true;
    if (k) memcpy(p, data.data() + dataPos, k);
    dataPos += k; return (ssize_t)k;
}
int vf_access(const char* path, int mode) {
    sx_assert(!strcmp(path, "out"), "the given path");
    if (mode == F_OK) { if (!mkKind) { errno = ENOENT; return -1; } return 0; }
    if (!(accessRW & 1) && (mode & R_OK)) { errno = EACCES; return -1; }
    if (!(accessRW & 2) && (mode & W_OK)) { errno = EACCES; return -1; }
    return 0;
}
int vf_mkdir(const char* path, mode_t m) { sx_assert(!strcmp(path, "out"), "the given path"); made++; sx_assert((m & 0700) == 0700, "the owner can use the directory"); if (mkErr) { errno = EACCES; return -1; } if (mkKind) { errno = EEXIST; return -1; } return 0; }
FILE* vf_open_memstream(char** b, size_t* n) { MemStream* s = new MemStream(); s->buf = b; s->n = n; s->open = true; return (FILE*)s; }
int vf_vfprintf(FILE*, const char*, va_list) { return 0; }
int vf_fclose(FILE* f) { MemStream* s = (MemStream*)f; sx_assert(s->open, "a stream is closed once"); *s->buf = (char*)calloc(1, 1); *s->n = 0; delete s; return 0; }
}
namespace mws { namespace parser {
HarvestResult processHarvestFromFd(int fd, HarvestProcessor* p, bool withData) {
    sx_assert(fd == 7 && fdOpen == 1, "an open file is loaded"); sx_assert(p && withData, "loaded with its data");
    loaded.push_back(lastOpened);
    HarvestResult r; r.status = (int)sx_pick("status", 2) ? -1 : 0; r.numExpressions = 2; return r;
}
} }
static Node* mk(const char* n, unsigned char t) { Node* x = new Node(); x->name = n; x->type = t; return x; }
static string norm(const string& p) { string r; size_t i = 0; while (i <= p.size()) { size_t j = p.find('/', i); if (j == string::npos) j = p.size(); string c = p.substr(i, j - i); i = j + 1; if (c.empty() || c == ".") continue; r += "/" + c; } return r; }
static void expect(Node* d, const string& at, bool recursive, std::set<string>* all, std::set<string>* out) {
    for (Node* n : d->sub) {
        if (n->name[0] == '.') continue;
        string p = at + "/" + n->name;
        if (n->type == DT_REG) {
            all->insert(p);
            if (n->name.size() >= 7 && n->name.substr(n->name.size() - 7) == "harvest") out->insert(p);
        } else if (n->type == DT_DIR && recursive) expect(n, p, true, all, out);
    }
}
extern "C" void sx_main(void) {
#if defined(WALK)
    root = mk("r", DT_DIR); faultAt = -1;
    unsigned n = sx_pick("entries", NE + 1), used = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned k = sx_pick("entry", 8); sx_assume(!(used >> k & 1)); used |= 1u << k;
        switch (k) {
        case 0: root->sub.push_back(mk("a.harvest", DT_REG)); break;
        case 1: root->sub.push_back(mk("b.harvest", DT_REG)); break;
        case 2: root->sub.push_back(mk("c.txt", DT_REG)); break;
        case 3: root->sub.push_back(mk(".h.harvest", DT_REG)); break;
        case 4: root->sub.push_back(mk("l.harvest", DT_LNK)); break;
        case 5: { Node* d = mk("d", DT_DIR); root->sub.push_back(d);
            unsigned c = sx_pick("content", 4);
            if (c & 1) d->sub.push_back(mk("a.harvest", DT_REG));
            if (c & 2) { Node* e = mk("e", DT_DIR); e->sub.push_back(mk("z.harvest", DT_REG)); d->sub.push_back(e); }
            break; }
        case 6: { Node* d = mk("e.harvest", DT_DIR); d->sub.push_back(mk("y.harvest", DT_REG)); d->sub.push_back(mk("y.html", DT_REG)); root->sub.push_back(d); break; }
        default: { Node* d = mk(".d", DT_DIR); d->sub.push_back(mk("y.harvest", DT_REG)); root->sub.push_back(d); break; }
        }
    }
    bool recursive = sx_pick("recursive", 2); unknownTypes = sx_pick("unknown", 2);
    std::set<string> all, want; expect(root, "/r", recursive, &all, &want);
#ifdef FAULT
    faultAt = (int)sx_pick("fault", FAULT);
#endif
    if (sx_pick("visit", 2)) { // the walk itself
        vector<string> seen; int stopAt = (int)sx_pick("stop", 4);
        int r = common::utils::foreachEntryInDirectory("r", [&](const string& full, const string& part) {
            sx_assert(look(full) && look(full)->type == DT_REG, "a visited file exists");
            sx_assert(look("r/" + part) && norm("r/" + part) == norm(full).substr(0, norm(full).rfind('/')), "the directory of the visited file");
            seen.push_back(norm(full)); return (int)seen.size() == stopAt ? -1 : 0;
        }, [&](const string& part) { sx_assert(look("r/" + part) && look("r/" + part)->type == DT_DIR, "a directory is asked for"); return recursive; });
        std::set<string> got(seen.begin(), seen.end());
        sx_assert(got.size() == seen.size(), "no file is visited twice");
        for (auto& p : seen) sx_assert(all.count(p), "nothing else is visited");
        bool stopped = stopAt > 0 && (int)seen.size() >= stopAt;
        sx_assert((r != 0) == (stopped || faulted()), "a failure is reported, and nothing else");
        if (r == 0) { sx_assert(got == all, "every file is visited"); sx_reach("walked"); } else sx_reach("walk failed");
        if (stopped) { sx_assert((int)seen.size() == stopAt, "the callback can stop the walk"); }
    } else {
        mws::index::HarvesterConfiguration c; c.paths.push_back("r"); c.recursive = recursive;
        mws::index::IndexBuilder b(nullptr, nullptr, nullptr, nullptr);
        uint64_t k = mws::index::loadHarvests(&b, c);
        std::set<string> got; for (auto& p : loaded) { sx_assert(got.insert(norm(p)).second, "no harvest is loaded twice"); sx_assert(want.count(norm(p)), "nothing else is loaded"); }
        if (!faulted()) { sx_assert(got == want, "every harvest is loaded"); sx_reach(want.size() > 1 ? "several loaded" : "loaded"); }
        sx_assert(k == 2 * loaded.size(), "the expressions of all harvests are counted");
        sx_assert(opened == (int)loaded.size(), "only harvests are opened");
    }
    sx_assert(openDirs == 0 && fdOpen == 0, "everything opened is closed");
#elif defined(LONGREAD)
    root = nullptr; faultAt = -1;
    static const size_t LS[] = {255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537}, ONCE[] = {1000000, 4096, 4095, 1000};
    size_t n = LS[sx_pick("size", sizeof LS / sizeof *LS)]; atOnce = ONCE[sx_pick("atonce", 4)];
    for (size_t i = 0; i < n; i++) data.push_back((char)(i / 251 + i));
    data[n - 1] = (char)sx_u8("last"); data[n / 2] = (char)sx_u8("middle");
    statSize = n; if (sx_pick("fails", 2)) badAfter = n > 4096 ? 4096 : 0;
    bool threw = false; string got;
    try { got = common::utils::getFileContents("f"); } catch (std::runtime_error& e) { threw = true; }
    sx_assert(fdOpen == 0, "the file is closed");
    sx_assert(threw == readBad, "a failure is reported, and nothing else");
    if (threw) { sx_reach("failed"); return; }
    sx_assert(got.size() == n, "the whole file is read");
    int diff = 0; for (size_t i = 0; i < n; i++) diff |= got[i] ^ data[i];
    sx_assert(diff == 0, "the bytes of the file"); sx_reach("read");
#elif defined(READ)
    root = nullptr;
    size_t n = sx_pick("size", READ + 1); for (size_t i = 0; i < n; i++) data.push_back((char)sx_u8("byte"));
    statSize = n;
    unsigned how = sx_pick("change", 3); // the file may shrink or grow between the calls
    if (how == 1) statSize = n + 1 + sx_pick("less", 2); else if (how == 2) { sx_assume(n > 0); statSize = n - 1; }
    faultAt = (int)sx_pick("fault", 3) - 1;
    bool threw = false; string got;
    try { got = common::utils::getFileContents("f"); } catch (std::runtime_error& e) { threw = true; }
    sx_assert(fdOpen == 0, "the file is closed");
    sx_assert(threw == (faulted() || readBad || how == 1), "a failure is reported, and nothing else");
    if (!threw) { sx_assert(got.size() == statSize, "the whole file is read"); bool same = true; for (size_t i = 0; i < statSize; i++) same = same & (got[i] == data[i]); sx_assert(same, "the bytes of the file"); sx_reach("read"); }
    else sx_reach(how == 1 ? "cut short" : "failed");
#elif defined(MKDIR_)
    root = nullptr;
    static const int KINDS[] = {0, S_IFDIR, S_IFREG, S_IFBLK, S_IFSOCK, S_IFCHR, S_IFIFO};
    mkKind = KINDS[sx_pick("kind", 7)]; mkErr = (int)sx_pick("mkdirfails", 2); accessRW = (int)sx_pick("access", 4); statFails = (int)sx_pick("statfails", 2);
    bool refuse = sx_pick("refuse", 2), threw = false;
    try { common::utils::create_directory("out", refuse); } catch (std::runtime_error& e) { threw = true; }
    if (!mkKind) { sx_assert(made == 1 && threw == !!mkErr, "a new directory is created"); sx_reach("created"); }
    else { sx_assert(threw == (refuse || mkKind != S_IFDIR || accessRW != 3 || statFails), "only a usable directory is accepted"); if (!threw) sx_reach("existing"); else sx_reach("refused"); }
#else
    string s, suf; unsigned n = sx_pick("length", NB + 1), m = sx_pick("suffix", NB + 2);
    for (unsigned i = 0; i < n; i++) s.push_back((char)sx_u8("byte"));
    for (unsigned i = 0; i < m; i++) suf.push_back((char)sx_u8("sufbyte"));
    bool is = m <= n; for (unsigned i = 0; i < m && m <= n; i++) is = is & (s[n - m + i] == suf[i]);
    sx_assert(common::utils::hasSuffix(s, suf) == is, "ends with the suffix");
    sx_reach(m > n ? "longer" : "suffix");
    string t = s, want; bool sep = false;
    common::utils::removeDuplicateSpaces(&t);
    for (char c : s) { if (c == ' ' || (c >= 9 && c <= 13)) { sep = !want.empty(); } else { if (sep) want += ' '; sep = false; want += c; } }
    sx_assert(t.size() == want.size() && t == want, "words separated by single spaces");
    if (want.size() != s.size()) sx_reach("shortened");
#endif
}
