// qbsim: shared memory block between the simulated kernel and one simulated process.
#pragma once
#include <cstdint>

namespace qs {

enum Op : int {
    OP_NONE = 0, OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_LSEEK, OP_FSTAT, OP_STAT, OP_LSTAT,
    OP_OPENDIR, OP_READDIR, OP_CLOSEDIR, OP_MKDIR, OP_RMDIR, OP_UNLINK, OP_RENAME, OP_LINK,
    OP_SYMLINK, OP_READLINK, OP_CHMOD, OP_TRUNCATE, OP_FTRUNCATE, OP_FSYNC, OP_GETCWD, OP_CHDIR,
    OP_ACCESS, OP_TIME, OP_UTIME, OP_STATFS, OP_FIONREAD, OP_RANDOM, OP_GETENV, OP_SLEEP,
    OP_EXIT, OP_COUNT
};
const char* op_name(int op);
int op_value(const char* name);

enum { RPC_DATA = 1 << 18, RPC_PATH = 8192, RPC_SITES = 1 << 17 };

struct StatBuf {
    uint64_t ino, size, nlink;
    uint32_t mode;
    int64_t mtime_s, mtime_ns;
};

struct Rpc {
    int32_t op;
    int32_t err;
    int64_t a, b, c;
    int32_t dfd, dfd2; // the paths are relative to these directories (1 + handle; 0: the current one)
    int64_t ret;
    StatBuf st;
    char path[RPC_PATH];
    char path2[RPC_PATH];
    // written by the child for the record (never used to decide anything)
    int64_t alloc_count, alloc_failed, alloc_bytes, live_allocs;
    int32_t heap_error; // 1 bad/double free, 2 overrun, 3 write after free, 4 arena exhausted
    int32_t reached_exit;
    int32_t unsupported; // an intercepted call outside the simulation was attempted
    char data[RPC_DATA];
    // where memory was asked for (hashes of the innermost 4 and 10 return addresses)
    uint32_t sites[2][RPC_SITES];
};

// Process-local configuration of a simulated process.
struct ChildCfg {
    int heap_mode;
    uint64_t heap_seed;
    int64_t alloc_fail_at;    // 1-based, 0 = never
    int64_t alloc_fail_count; // how many in a row, 0 = all from then on
    bool record_sites;
    uint64_t ambient;         // pid, uid, host name
};

// runs entry(argc, argv) as the simulated process; never returns
[[noreturn]] void child_run(int sock, Rpc* shm, ChildCfg const& cfg, int (*entry)(int, char**),
    int argc, char** argv);

} // namespace qs
