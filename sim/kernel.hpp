// qbsim: the simulated kernel: in-memory file system, clock, scheduler, fault
// injector, and the recorded history.
#pragma once
#include "common.hpp"
#include "rpc.hpp"

namespace qs {

// ---------------------------------------------------------------- file system
struct Inode;
typedef std::shared_ptr<Inode> Ino;
struct Inode {
    uint64_t ino = 0;
    char type = 'f'; // f d l
    int mode = 0644;
    int64_t mtime = 0;
    std::string data; // file content or link target
    std::map<std::string, Ino> ents;
    Inode* parent = 0; // directories only
    int nlink = 1;
    std::string durable; // content that survives power loss
    bool dirty = false;
    bool volatile_entry = false; // created since the last fsync: may vanish on power loss
};

struct FileSpec {
    char type = 'f';
    std::string path;
    int mode = 0644;
    std::string data; // content or link target
    bool operator==(FileSpec const& o) const {
        return type == o.type && path == o.path && mode == o.mode && data == o.data;
    }
};

struct Vfs {
    Ino root;
    uint64_t next_ino;
    int64_t capacity = -1; // bytes of file data, -1 unlimited
    int64_t used = 0;
    int64_t now = 0;

    explicit Vfs(uint64_t ino_base = 100);
    Vfs(Vfs const&) = delete;

    // All return 0 or -errno.
    int resolve(const std::string& cwd, const std::string& path, bool follow, Ino& out,
        Ino* parent = 0, std::string* name = 0, int depth = 0);
    int mkdir(const std::string& cwd, const std::string& path, int mode);
    // test-side helpers (no permission checks; create parents)
    void put(FileSpec const& f);
    void remove_tree(const std::string& path);
    bool get(const std::string& path, std::string& data); // follows links
    char kind(const std::string& path, bool follow = true); // 0 when absent
    std::vector<FileSpec> dump();                           // everything, sorted by path
    void power_loss(uint64_t seed);
    void settle(); // everything becomes durable
    Ino make(char type, int mode);

private:
    void dump_rec(Ino const& n, const std::string& p, std::vector<FileSpec>& out);
    void loss_rec(Ino const& n, Rng& r);
    void settle_rec(Ino const& n);
};

// ---------------------------------------------------------------- faults
enum Act {
    A_FAIL,      // the call fails with err, no effect
    A_SHORT,     // read/write handles at most param bytes
    A_CRASH,     // the process is killed before the call takes effect
    A_CRASH_AFTER, // ... after it took effect, before it returns
    A_CLOSELOSE, // close fails with err; data beyond param bytes is lost
    A_EDIT,      // another party changes the tree just before the call (edits[param])
    A_CLOCK,     // the clock jumps by param ns just before the call
    A_TORN,      // write: param bytes reach the file, then the call fails with err
    A_COUNT
};
const char* act_name(int a);

struct Fault {
    int run = 0;             // which run step of the scenario
    int proc = -1;           // which process of that run (-1 any)
    int op = 0;              // OP_NONE matches every call
    std::string path = "*";  // "*" or absolute lexical path
    int nth = 1;             // first matching call that is hit
    int count = 1;           // how many in a row (0 = from then on)
    int act = A_FAIL;
    int err = 0;
    int64_t param = 0;
};

struct Edit {
    char kind = 'w'; // w write in place, a replace atomically, d delete tree, m mkdir, l symlink, r rename, c chmod, t touch
    std::string path, data; // data: content / link target / new name
    int mode = 0644;
};

// ---------------------------------------------------------------- runs
struct RunCfg {
    std::vector<std::string> args;
    std::vector<std::pair<std::string, std::string>> env;
    std::string cwd = "/w";
    std::string tz = "UTC0";
    int64_t read_max = 0;  // 0: as asked; else at most this many bytes per read
    int64_t write_max = 0;
    int eintr = 0;         // 1 in eintr reads/writes is interrupted first
    uint64_t chunk_seed = 0; // 0: exactly read_max; else random 1..read_max
    int heap_mode = 0;
    uint64_t heap_seed = 2;
    int64_t alloc_fail_at = 0, alloc_fail_count = 1;
    uint64_t ambient = 1;
    int lost = 0;      // 1 stdout full, 2 stderr full, 4 stdout has no reader, 8 stderr has no reader
    int max_files = 0; // most open files and directories at once, 0: no such limit
    uint64_t env_seed = 0; // nonzero: unknown environment variables may be "set"
    std::string entry;     // empty: quickbook; else a component driver
    bool record_sites = false; // not part of the scenario
    bool operator==(RunCfg const& o) const;
};

struct Switch { // at global call number `at`, process `to` runs next
    int at = 0, to = 0;
};

struct Group { // processes that run together
    std::vector<RunCfg> procs;
    std::vector<Switch> switches;
    int max_calls = 200000;
};

struct Ev {
    uint8_t proc = 0, op = 0;
    bool injected = false;
    int16_t err = 0;
    int32_t flags = 0; // open flags
    int64_t ret = 0;
    std::string path;  // absolute, lexically normalised
    std::string path2;
    std::string raw;   // path as the process spelled it
    std::string canon; // path after following links (open/stat that succeeded)
};

struct ProcResult {
    bool exited = false;   // called exit / returned from main
    int code = -1;
    int sig = 0;
    bool crashed = false;  // killed by an injected crash
    bool hung = false;     // CPU limit or call budget
    std::string out, err;
    int calls = 0;
    int64_t allocs = 0, alloc_failed = 0;
    int heap_error = 0;
    int unsupported = 0;
    std::vector<uint32_t> sites[2];
    bool ok() const { return exited && code == 0; }
    std::string status() const;
};

struct Stats {
    long processes = 0, calls = 0, allocs = 0;
    long faults[A_COUNT] = {0};
    std::map<std::string, long> fault_kinds; // "write/ENOSPC" -> times delivered
    std::set<uint64_t> interleavings;        // hashes of the (process, call, path) order
    std::set<uint64_t> fault_points;         // (call, errno/action, path role)
    int64_t sim_ns = 0;
    std::map<std::string, long> probes;
    void merge(Stats const& o);
    void probe(const std::string& n) { ++probes[n]; }
};

struct KernelCfg {
    int64_t clock = 1500000000ll * 1000000000ll;
    int64_t tick = 1000;      // ns per call
    uint64_t dir_seed = 0;    // readdir order: 0 = sorted
    bool dt_unknown = false;
    uint64_t ino_base = 100;
    int64_t capacity = -1;
};

struct Kernel {
    Vfs fs;
    KernelCfg kcfg;
    int64_t clock;
    uint64_t random_state;
    Stats* stats;
    std::vector<Ev> trace;
    Hash log;           // hash of everything observable, in order
    int run_index = 0;
    std::vector<Edit> edits;
    bool record_data = true;

    Kernel(KernelCfg const& k, Stats* st);
    void load(std::vector<FileSpec> const& files);
    void apply(Edit const& e);
    std::vector<ProcResult> run(Group const& g, std::vector<Fault> const& faults);
    ProcResult run1(RunCfg const& c, std::vector<Fault> const& faults = std::vector<Fault>());

private:
    struct Handle;
    struct Proc;
    struct FaultState {
        Fault f;
        int seen = 0;
    };
    std::vector<FaultState> fstate;
    uint64_t dir_counter = 0;
    void spawn(Proc& p, int idx, RunCfg const& c);
    bool wait_request(Proc& p);
    void reap(Proc& p, bool killed);
    void serve(Proc& p);
    void do_op(Proc& p, Ev& ev, int64_t short_n);
    std::string abspath(Proc& p, const std::string& path);
    void count_fault(int act, int op, int err, const std::string& path);
};

extern int (*entry_quickbook)(int, char**);
typedef int (*EntryFn)(int, char**);
void register_entry(const std::string& name, EntryFn fn);
std::string flags_str(int fl);
std::string trace_str(std::vector<Ev> const& t);

} // namespace qs
