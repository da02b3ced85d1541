// An ordered in-memory key-value store behind the LevelDB interface (byte-wise key order, as LevelDB's default comparator).
#pragma once
#include <map>
#include <string>
#include <leveldb/db.h>
#include <leveldb/iterator.h>
#include <leveldb/write_batch.h>
#include <leveldb/options.h>
#include <leveldb/status.h>
typedef std::map<std::string, std::string> FlMap;
static std::map<std::string, FlMap*> fl_dbs;
static int fl_open = 0, fl_iters = 0, fl_fail_put = -1, fl_fail_open = 0;
namespace leveldb {
DB::~DB() {}
Snapshot::~Snapshot() {}
Iterator::Iterator() { cleanup_head_.function = nullptr; cleanup_head_.next = nullptr; fl_iters++; }
Iterator::~Iterator() { fl_iters--; }
Options::Options() : comparator(nullptr), create_if_missing(false), error_if_exists(false), paranoid_checks(false), env(nullptr), info_log(nullptr) {}
// as LevelDB: 4 bytes length, 1 byte code
const char* Status::CopyState(const char* s) { char* r = new char[5]; for (int i = 0; i < 5; i++) r[i] = s[i]; return r; }
Status::Status(Code code, const Slice& a, const Slice& b) { char* r = new char[5]; r[0] = r[1] = r[2] = r[3] = 0; r[4] = (char)code; state_ = r; }
std::string Status::ToString() const { return ok() ? "OK" : "error"; }
struct FlIter : Iterator {
    FlMap* m; FlMap::iterator it;
    FlIter(FlMap* m) : m(m), it(m->end()) {}
    bool Valid() const { return it != m->end(); }
    void SeekToFirst() { it = m->begin(); }
    void SeekToLast() { it = m->end(); if (!m->empty()) --it; }
    void Seek(const Slice& k) { it = m->lower_bound(std::string(k.data(), k.size())); }
    void Next() { sx_assert(Valid(), "the cursor is valid"); ++it; }
    void Prev() { sx_assert(Valid(), "the cursor is valid"); if (it == m->begin()) it = m->end(); else --it; }
    Slice key() const { sx_assert(Valid(), "the cursor is valid"); return Slice(it->first.data(), it->first.size()); }
    Slice value() const { sx_assert(Valid(), "the cursor is valid"); return Slice(it->second.data(), it->second.size()); }
    Status status() const { return Status::OK(); }
};
struct FlDB : DB {
    FlMap* m;
    FlDB(FlMap* m) : m(m) { fl_open++; }
    ~FlDB() { fl_open--; }
    Status Put(const WriteOptions&, const Slice& k, const Slice& v) {
        if (fl_fail_put == 0) return Status::IOError("put");
        if (fl_fail_put > 0) fl_fail_put--;
        (*m)[std::string(k.data(), k.size())] = std::string(v.data(), v.size());
        return Status::OK();
    }
    Status Delete(const WriteOptions&, const Slice& k) { m->erase(std::string(k.data(), k.size())); return Status::OK(); }
    Status Write(const WriteOptions&, WriteBatch*) { return Status::IOError("batch"); }
    Status Get(const ReadOptions&, const Slice& k, std::string* v) {
        auto i = m->find(std::string(k.data(), k.size()));
        if (i == m->end()) return Status::NotFound("key");
        *v = i->second;
        return Status::OK();
    }
    Iterator* NewIterator(const ReadOptions&) { return new FlIter(m); }
    const Snapshot* GetSnapshot() { return nullptr; }
    void ReleaseSnapshot(const Snapshot*) {}
    bool GetProperty(const Slice&, std::string*) { return false; }
    void GetApproximateSizes(const Range*, int, uint64_t*) {}
    void CompactRange(const Slice*, const Slice*) {}
};
Status DB::Open(const Options& o, const std::string& n, DB** db) {
    *db = nullptr;
    if (fl_fail_open) return Status::IOError("open");
    auto i = fl_dbs.find(n);
    if (i == fl_dbs.end() && !o.create_if_missing) return Status::NotFound("db");
    if (i != fl_dbs.end() && o.error_if_exists) return Status::IOError("exists");
    if (i == fl_dbs.end()) i = fl_dbs.insert(std::make_pair(n, new FlMap())).first;
    *db = new FlDB(i->second);
    return Status::OK();
}
Status DestroyDB(const std::string& n, const Options&) { fl_dbs.erase(n); return Status::OK(); }
}
