// P26: the pid file: it holds the number of the process, or writing it is reported as failed.
#include "memfs.hpp"
#include <unistd.h>
#include "common/utils/save_pid_file.h"
static unsigned pid;
extern "C" pid_t vf_getpid(void) { return (pid_t)pid; }
extern "C" pid_t vf_getppid(void) { return 1; }
extern "C" void sx_main(void) {
    pid = sx_below("pid", 32769); // the most Linux gives out unless told otherwise
    sx_assume(pid >= 1);
    if (sx_pick("old", 2)) { MFile* f = mfs_make("pid"); for (int i = 0; i < 9; i++) f->data.push_back('9'); } // of a server that ran before
    mfs_fail_call = sx_pick("failcall", 4) - 1;
    int rc = save_pid_file("pid");
    bool failed = mfs_fail_call >= 0 && mfs_calls > mfs_fail_call;
    sx_assert((rc == 0) == !failed, "writing the pid file succeeds exactly if every call did");
    sx_assert(mfs_open == 0, "the pid file is closed");
    if (failed) { sx_reach("not written"); return; }
    MFile* f = mfs_find("pid");
    sx_assert(f && !f->data.empty() && f->data.size() <= 8, "a pid file is there, and nothing is left of an old one");
    unsigned v = 0;
    for (size_t i = 0; i < f->data.size(); i++) {
        unsigned char c = f->data[i];
        if (i + 1 == f->data.size() && c == '\n') break;
        sx_assert(c >= '0' && c <= '9', "the pid file holds a decimal number");
        v = v * 10 + (c - '0');
    }
    sx_assert(v == pid, "the pid file holds the number of the process");
    sx_reach("written");
    sx_observe("size", f->data.size());
}
