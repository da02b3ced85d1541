// In-memory files for the code under test, which is compiled with -Dfopen=vf_fopen and so on.
#pragma once
#include <sx.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <string>
#include <vector>
struct MFile { std::string path; std::vector<char> data; };
struct MOpen { MFile* f; size_t pos; bool err; bool eof; bool open; };
static std::vector<MFile*>& mfs() { static auto* v = new std::vector<MFile*>; return *v; }
static std::vector<MOpen*>& mopen() { static auto* v = new std::vector<MOpen*>; return *v; }
static int mfs_write_calls, mfs_fail_write = -1, mfs_maps, mfs_open, mfs_calls, mfs_fail_call = -1;
// the n-th system call fails (open, fstat, mmap, fopen, fseek, fclose)
static bool mfs_fault() { return mfs_calls++ == mfs_fail_call; }
static MFile* mfs_find(const char* p) { for (auto f : mfs()) if (f->path == p) return f; return nullptr; }
static MFile* mfs_make(const char* p) { MFile* f = mfs_find(p); if (!f) { f = new MFile; f->path = p; mfs().push_back(f); } f->data.clear(); return f; }
static MOpen* mo(int fd) { return fd >= 100 && (size_t)(fd - 100) < mopen().size() ? mopen()[fd - 100] : nullptr; }
// the bookkeeping of this file system is not memory of the code under test (matters where SX_SHARE is active)
struct MOwn { MOwn() { SX_SHARE(2); } ~MOwn() { SX_SHARE(3); } };
static size_t mo_write(MOpen* o, const void* p, size_t n) {
    if ((FILE*)o == stderr || (FILE*)o == stdout) return n;
    MOwn own;
    if (mfs_write_calls++ == mfs_fail_write) { o->err = true; errno = ENOSPC; return 0; }
    if (o->pos + n > o->f->data.size()) o->f->data.resize(o->pos + n);
    if (n) memcpy(&o->f->data[o->pos], p, n);
    o->pos += n;
    return n;
}
extern "C" {
FILE* vf_fopen(const char* path, const char* mode) { MOwn own;
    MFile* f = mfs_find(path);
    if (mfs_fault()) { errno = EIO; return nullptr; }
    if (mode[0] == 'r' && !f) { errno = ENOENT; return nullptr; }
    if (mode[0] == 'w' && strchr(mode, 'x') && f) { errno = EEXIST; return nullptr; }
    if (mode[0] == 'w' || (mode[0] == 'a' && !f)) f = mfs_make(path);
    MOpen* o = new MOpen(); o->f = f; o->open = true; o->pos = mode[0] == 'a' ? f->data.size() : 0;
    mopen().push_back(o); mfs_open++;
    return (FILE*)o;
}
int vf_fclose(FILE* s) { MOwn own; MOpen* o = (MOpen*)s; sx_assert(o->open, "stream is closed once"); o->open = false; mfs_open--; return mfs_fault() ? -1 : 0; }
size_t vf_fwrite(const void* p, size_t sz, size_t n, FILE* s) { if (!sz || !n) return 0; return mo_write((MOpen*)s, p, sz * n) ? n : 0; }
size_t vf_fread(void* p, size_t sz, size_t n, FILE* s) { MOwn own;
    MOpen* o = (MOpen*)s; size_t want = sz * n, have = o->pos < o->f->data.size() ? o->f->data.size() - o->pos : 0;
    if (want > have) { want = have; o->eof = true; }
    if (want) memcpy(p, &o->f->data[o->pos], want);
    o->pos += want;
    return sz ? want / sz : 0;
}
int vf_fseek(FILE* s, long off, int wh) { MOwn own; MOpen* o = (MOpen*)s; if (mfs_fault()) return -1; o->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->pos + off : o->f->data.size() + off; o->eof = false; return 0; }
long vf_ftell(FILE* s) { return ((MOpen*)s)->pos; }
int vf_ferror(FILE* s) { return ((MOpen*)s)->err; }
int vf_feof(FILE* s) { return ((MOpen*)s)->eof; }
int vf_fputs(const char* p, FILE* s) { size_t n = strlen(p); return !n || mo_write((MOpen*)s, p, n) ? 1 : EOF; }
int vf_fputc(int c, FILE* s) { char b = (char)c; return mo_write((MOpen*)s, &b, 1) ? (unsigned char)c : EOF; }
int vf_fflush(FILE*) { return 0; }
int vf_fileno(FILE* s) { for (size_t i = 0; i < mopen().size(); i++) if ((FILE*)mopen()[i] == s) return 100 + (int)i; return -1; }
FILE* vf_fdopen(int fd, const char*) { return (FILE*)mo(fd); }
int vf_open(const char* path, int flags, ...) { MOwn own;
    MFile* f = mfs_find(path);
    if (mfs_fault()) { errno = EIO; return -1; }
    if (f && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!f) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } f = mfs_make(path); }
    MOpen* o = new MOpen(); o->f = f; o->open = true;
    mopen().push_back(o); mfs_open++;
    return 100 + (int)mopen().size() - 1;
}
int vf_close(int fd) { MOwn own; MOpen* o = mo(fd); sx_assert(o && o->open, "descriptor is closed once"); o->open = false; mfs_open--; return 0; }
ssize_t vf_write(int fd, const void* p, size_t n) { MOpen* o = mo(fd); size_t r = mo_write(o, p, n); return r || !n ? (ssize_t)r : -1; }
ssize_t vf_read(int fd, void* p, size_t n) { MOwn own;
    MOpen* o = mo(fd); size_t have = o->pos < o->f->data.size() ? o->f->data.size() - o->pos : 0;
    if (n > have) n = have;
    if (n) memcpy(p, &o->f->data[o->pos], n);
    o->pos += n;
    return n;
}
off_t vf_lseek(int fd, off_t off, int wh) { MOwn own; MOpen* o = mo(fd); o->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->pos + off : o->f->data.size() + off; return o->pos; }
int vf_stat(const char* path, struct stat* s) { MFile* f = mfs_find(path); if (mfs_fault()) { errno = EIO; return -1; } if (!f) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFREG; s->st_size = f->data.size(); return 0; }
int vf_lstat(const char* path, struct stat* s) { return vf_stat(path, s); }
int vf_access(const char* path, int) { if (!mfs_find(path)) { errno = ENOENT; return -1; } return 0; }
int vf_ftruncate(int fd, off_t n) { MOwn own; mo(fd)->f->data.resize(n); return 0; }
int vf_msync(void*, size_t, int) { return 0; }
int vf_madvise(void*, size_t, int) { return 0; }
int vf_fsync(int) { return 0; }
int vf_remove(const char* path);
ssize_t vf_pread(int fd, void* p, size_t n, off_t at) { MOwn own;
    MOpen* o = mo(fd); size_t have = at >= 0 && (size_t)at < o->f->data.size() ? o->f->data.size() - at : 0;
    if (n > have) n = have;
    if (n) memcpy(p, &o->f->data[at], n);
    return n;
}
int vf_fstat(int fd, struct stat* s) { MOpen* o = mo(fd); if (!o || mfs_fault()) return -1; memset(s, 0, sizeof *s); s->st_mode = S_IFREG; s->st_size = o->f->data.size(); return 0; }
void* vf_mmap(void*, size_t n, int, int, int fd, off_t) { MOwn own;
    MOpen* o = mo(fd);
    if (n == 0 || !o || mfs_fault()) { errno = EINVAL; return MAP_FAILED; }
    // only the bytes of the file are accessible
    char* p = (char*)malloc(n < o->f->data.size() ? n : o->f->data.size());
    memcpy(p, o->f->data.data(), n < o->f->data.size() ? n : o->f->data.size());
    mfs_maps++;
    return p;
}
int vf_munmap(void* p, size_t) { mfs_maps--; free(p); return 0; }
int vf_unlink(const char* path) { MFile* f = mfs_find(path); if (!f) { errno = ENOENT; return -1; } f->path = ""; return 0; }
int vf_remove(const char* path) { return vf_unlink(path); }
}
