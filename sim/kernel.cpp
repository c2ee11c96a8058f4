#include "kernel.hpp"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace qs {

// A sanitizer's report without what changes from process to process.
static std::string plain_report(std::string const& s) {
    std::string o;
    for (auto& line : split_lines(s)) {
        if (starts_with(line, "Shadow bytes") || starts_with(line, "SUMMARY")) break;
        // the innermost frames; the outermost are the simulator's
        size_t hash = line.find_first_not_of(' ');
        if (hash == 4 && line[hash] == '#' && line.compare(hash, 3, "#0 ") && line.compare(hash, 3, "#1 ")) continue;
        for (size_t i = 0; i < line.size(); ++i) {
            if (line.compare(i, 2, "==") == 0 && i + 2 < line.size() && isdigit((unsigned char)line[i + 2])) {
                size_t j = i + 2;
                while (j < line.size() && isdigit((unsigned char)line[j])) ++j;
                if (line.compare(j, 2, "==") == 0) {
                    i = j + 1;
                    continue;
                }
            }
            if (line.compare(i, 2, "0x") == 0 && (!i || line[i - 1] != '+')) {
                size_t j = i + 2;
                while (j < line.size() && isxdigit((unsigned char)line[j])) ++j;
                o += "0x*";
                i = j - 1;
                continue;
            }
            o += line[i];
        }
        o += "\n";
    }
    return o;
}

int (*entry_quickbook)(int, char**) = 0;
static std::map<std::string, EntryFn>& entries() {
    static std::map<std::string, EntryFn>* m = new std::map<std::string, EntryFn>;
    return *m;
}
void register_entry(const std::string& n, EntryFn f) { entries()[n] = f; }

static const char* op_names[OP_COUNT] = {"any", "open", "read", "write", "close", "lseek", "fstat",
    "stat", "lstat", "opendir", "readdir", "closedir", "mkdir", "rmdir", "unlink", "rename", "link",
    "symlink", "readlink", "chmod", "truncate", "ftruncate", "fsync", "getcwd", "chdir", "access",
    "time", "utime", "statfs", "fionread", "random", "getenv", "sleep", "exit"};
const char* op_name(int op) { return op >= 0 && op < OP_COUNT ? op_names[op] : "?"; }
int op_value(const char* n) {
    for (int i = 0; i < OP_COUNT; ++i)
        if (!strcmp(op_names[i], n)) return i;
    return -1;
}
static const char* act_names[A_COUNT] = {
    "fail", "short", "crash", "crash-after", "close-lose", "edit", "clock", "torn"};
const char* act_name(int a) { return a >= 0 && a < A_COUNT ? act_names[a] : "?"; }

bool RunCfg::operator==(RunCfg const& o) const {
    return args == o.args && env == o.env && cwd == o.cwd && tz == o.tz && read_max == o.read_max &&
           write_max == o.write_max && eintr == o.eintr && chunk_seed == o.chunk_seed &&
           heap_mode == o.heap_mode && heap_seed == o.heap_seed && alloc_fail_at == o.alloc_fail_at &&
           alloc_fail_count == o.alloc_fail_count && lost == o.lost && max_files == o.max_files && ambient == o.ambient && env_seed == o.env_seed &&
           entry == o.entry;
}

std::string ProcResult::status() const {
    if (crashed) return "killed by injected crash";
    if (hung) return "hung";
    if (exited) return fmt("exit %d", code);
    return fmt("signal %d", sig);
}

void Stats::merge(Stats const& o) {
    processes += o.processes;
    calls += o.calls;
    allocs += o.allocs;
    for (int i = 0; i < A_COUNT; ++i) faults[i] += o.faults[i];
    for (auto& k : o.fault_kinds) fault_kinds[k.first] += k.second;
    for (auto& k : o.probes) probes[k.first] += k.second;
    interleavings.insert(o.interleavings.begin(), o.interleavings.end());
    fault_points.insert(o.fault_points.begin(), o.fault_points.end());
    sim_ns += o.sim_ns;
}

// ---------------------------------------------------------------- Vfs
Vfs::Vfs(uint64_t base) : next_ino(base) {
    root = make('d', 0755);
    root->parent = root.get();
}
Ino Vfs::make(char type, int mode) {
    Ino n = std::make_shared<Inode>();
    n->ino = next_ino++;
    n->type = type;
    n->mode = mode;
    n->mtime = now;
    return n;
}

int Vfs::resolve(const std::string& cwd, const std::string& path, bool follow, Ino& out, Ino* parent,
    std::string* name, int depth) {
    if (depth > 12) return -ELOOP;
    if (path.empty()) return -ENOENT;
    if (path.size() >= 4096) return -ENAMETOOLONG;
    // The walk keeps a stack of directories so that ".." works on real parents.
    Ino cur = root;
    if (path[0] != '/') {
        int r = resolve("/", cwd, true, cur, 0, 0, depth + 1);
        if (r) return r;
    }
    size_t i = 0;
    if (parent) *parent = Ino();
    std::vector<std::string> parts;
    bool trailing = path[path.size() - 1] == '/';
    while (i < path.size()) {
        size_t j = path.find('/', i);
        if (j == std::string::npos) j = path.size();
        if (j > i) parts.push_back(path.substr(i, j - i));
        i = j + 1;
    }
    for (size_t k = 0; k < parts.size(); ++k) {
        const std::string& c = parts[k];
        bool last = k + 1 == parts.size();
        if (cur->type != 'd') return -ENOTDIR;
        if (!(cur->mode & 0100)) return -EACCES;
        if (c.size() > 255) return -ENAMETOOLONG;
        if (last && parent && c != "." && c != "..") {
            *parent = cur;
            *name = c;
        }
        if (c == ".") continue;
        if (c == "..") {
            // parent pointers are raw; find the owning pointer by walking from root
            Inode* want = cur->parent;
            if (want == root.get() || !want) cur = root;
            else {
                Inode* up = want->parent;
                Ino found;
                for (auto& e : up->ents)
                    if (e.second.get() == want) found = e.second;
                if (!found) return -ENOENT;
                cur = found;
            }
            continue;
        }
        auto it = cur->ents.find(c);
        if (it == cur->ents.end()) return -ENOENT;
        Ino n = it->second;
        if (n->type == 'l' && (!last || follow || trailing)) {
            // resolve the target relative to the directory that holds the link
            std::string target = n->data;
            std::string base;
            {
                // absolute path of cur
                Inode* d = cur.get();
                while (d != root.get()) {
                    Inode* up = d->parent;
                    for (auto& e : up->ents)
                        if (e.second.get() == d) { base = "/" + e.first + base; break; }
                    d = up;
                }
                if (base.empty()) base = "/";
            }
            std::string rest;
            for (size_t q = k + 1; q < parts.size(); ++q) rest += "/" + parts[q];
            return resolve(base, target + rest, follow, out, parent, name, depth + 1);
        }
        cur = n;
    }
    if (trailing && cur->type != 'd') return -ENOTDIR;
    out = cur;
    return 0;
}

int Vfs::mkdir(const std::string& cwd, const std::string& path, int mode) {
    Ino n, par;
    std::string name;
    std::string p = path;
    while (p.size() > 1 && p[p.size() - 1] == '/') p.erase(p.size() - 1);
    int r = resolve(cwd, p, false, n, &par, &name);
    if (r == 0) return -EEXIST;
    if (r != -ENOENT || !par) return r;
    if (par->ents.count(name)) return -ENOENT;
    if (!(par->mode & 0200)) return -EACCES;
    Ino d = make('d', mode & 0755);
    d->parent = par.get();
    d->volatile_entry = true;
    par->ents[name] = d;
    par->mtime = now;
    return 0;
}

void Vfs::put(FileSpec const& f) {
    std::string p = lexnorm(f.path);
    Ino cur = root;
    size_t i = 1;
    if (p == "/") return;
    for (;;) {
        size_t j = p.find('/', i);
        std::string c = p.substr(i, j == std::string::npos ? std::string::npos : j - i);
        if (j == std::string::npos) {
            auto it = cur->ents.find(c);
            if (it != cur->ents.end() && it->second->type == f.type) {
                if (f.type == 'd') { it->second->mode = f.mode; return; }
                if (f.type == 'f') {
                    used += (int64_t)f.data.size() - (int64_t)it->second->data.size();
                }
                it->second->data = f.data;
                it->second->durable = f.data;
                it->second->dirty = false;
                it->second->mode = f.mode;
                it->second->mtime = now;
                return;
            }
            if (it != cur->ents.end()) remove_tree(p);
            Ino n = make(f.type, f.mode);
            n->data = n->durable = f.data;
            if (f.type == 'f') used += (int64_t)f.data.size();
            if (f.type == 'd') { n->data.clear(); n->parent = cur.get(); }
            cur->ents[c] = n;
            cur->mtime = now;
            return;
        }
        auto it = cur->ents.find(c);
        if (it == cur->ents.end() || it->second->type == 'f') {
            Ino d = make('d', 0755);
            d->parent = cur.get();
            cur->ents[c] = d;
            cur = d;
        }
        else if (it->second->type == 'l') {
            Ino d;
            if (resolve("/", p.substr(0, j), true, d) || d->type != 'd') return;
            cur = d;
        }
        else cur = it->second;
        i = j + 1;
    }
}

static int64_t tree_size(Ino const& n) {
    if (n->type == 'f') return (int64_t)n->data.size();
    int64_t t = 0;
    for (auto& e : n->ents) t += tree_size(e.second);
    return t;
}
void Vfs::remove_tree(const std::string& path) {
    Ino n, par;
    std::string name;
    if (resolve("/", path, false, n, &par, &name) || !par) return;
    used -= tree_size(n);
    par->ents.erase(name);
    par->mtime = now;
}
bool Vfs::get(const std::string& path, std::string& data) {
    Ino n;
    if (resolve("/", path, true, n) || n->type != 'f') return false;
    data = n->data;
    return true;
}
char Vfs::kind(const std::string& path, bool follow) {
    Ino n;
    if (resolve("/", path, follow, n)) return 0;
    return n->type;
}
void Vfs::dump_rec(Ino const& n, const std::string& p, std::vector<FileSpec>& out) {
    for (auto& e : n->ents) {
        FileSpec f;
        f.type = e.second->type;
        f.path = p + "/" + e.first;
        f.mode = e.second->mode;
        if (f.type != 'd') f.data = e.second->data;
        out.push_back(f);
        if (f.type == 'd') dump_rec(e.second, f.path, out);
    }
}
std::vector<FileSpec> Vfs::dump() {
    std::vector<FileSpec> r;
    dump_rec(root, "", r);
    return r;
}
void Vfs::loss_rec(Ino const& n, Rng& r) {
    for (auto it = n->ents.begin(); it != n->ents.end();) {
        Ino c = it->second;
        if (c->type == 'f' && c->dirty) {
            int64_t old = (int64_t)c->data.size();
            switch (r.below(5)) {
            case 0: c->data = c->durable; break;           // nothing of the new data
            case 1: c->data.clear(); break;                // truncation only
            case 2: c->data.resize((size_t)r.below(c->data.size() + 1) / 512 * 512); break;
            case 3: {                                      // size without the blocks
                size_t k = (size_t)r.below(c->data.size() + 1) / 512 * 512;
                for (size_t i = k; i < c->data.size(); ++i) c->data[i] = 0;
                break;
            }
            default: break;                                // everything made it
            }
            used += (int64_t)c->data.size() - old;
        }
        if (c->volatile_entry && r.chance(1, 3)) {
            used -= tree_size(c);
            it = n->ents.erase(it);
            continue;
        }
        if (c->type == 'd') loss_rec(c, r);
        ++it;
    }
}
void Vfs::settle_rec(Ino const& n) {
    n->volatile_entry = false;
    if (n->type == 'f') { n->durable = n->data; n->dirty = false; }
    for (auto& e : n->ents) settle_rec(e.second);
}
void Vfs::power_loss(uint64_t seed) {
    Rng r(seed);
    loss_rec(root, r);
    settle_rec(root);
}
void Vfs::settle() { settle_rec(root); }

// ---------------------------------------------------------------- Kernel
struct Kernel::Handle {
    bool used = false, dir = false;
    Ino ino;
    int64_t pos = 0;
    int flags = 0;
    std::string path;
    std::vector<std::pair<std::string, Ino>> list;
    size_t dpos = 0;
};

struct Kernel::Proc {
    int idx = 0;
    RunCfg const* cfg = 0;
    pid_t pid = -1;
    int sock = -1;
    int fd_out = -1, fd_err = -1;
    Rpc* shm = 0;
    bool live = false, pending = false, killed_by_sim = false, call_budget = false;
    std::string cwd;
    std::vector<Handle> h;
    Rng chunk{0};
    int eintr_run = 0;
    ProcResult res;
};

// Reused across runs: shared block and capture files, per process slot.
struct Slot {
    Rpc* shm = 0;
    int out = -1, err = -1;
};
static Slot slots[16];
static Slot& slot(int i) {
    Slot& s = slots[i];
    if (!s.shm) {
        s.shm = (Rpc*)mmap(0, sizeof(Rpc), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        s.out = memfd_create("qb-out", MFD_CLOEXEC);
        s.err = memfd_create("qb-err", MFD_CLOEXEC);
        if (s.shm == MAP_FAILED || s.out < 0 || s.err < 0) {
            perror("qbsim: slot");
            exit(3);
        }
    }
    return s;
}
// The fork()ed workers must not share capture files.
void reset_slots() {
    for (auto& s : slots) s = Slot();
}

Kernel::Kernel(KernelCfg const& k, Stats* st) : fs(k.ino_base), kcfg(k), clock(k.clock), stats(st) {
    random_state = k.ino_base * 7919 + (uint64_t)k.dir_seed;
    fs.capacity = k.capacity;
    fs.now = clock;
}
void Kernel::load(std::vector<FileSpec> const& files) {
    for (auto& f : files) fs.put(f);
}
void Kernel::apply(Edit const& e) {
    fs.now = clock;
    switch (e.kind) {
    case 'w': { FileSpec f; f.path = e.path; f.data = e.data; f.mode = e.mode; fs.put(f); break; }
    case 'a': { // replaced atomically: those who have it open keep the old file
        fs.remove_tree(e.path);
        FileSpec f; f.path = e.path; f.data = e.data; f.mode = e.mode; fs.put(f); break;
    }
    case 'd': fs.remove_tree(e.path); break;
    case 'm': { FileSpec f; f.type = 'd'; f.path = e.path; f.mode = 0755; fs.put(f); break; }
    case 'l': { FileSpec f; f.type = 'l'; f.path = e.path; f.data = e.data; f.mode = 0777; fs.put(f); break; }
    case 'c': { Ino n; if (!fs.resolve("/", e.path, true, n)) n->mode = e.mode; break; }
    case 't': { Ino n; if (!fs.resolve("/", e.path, true, n)) n->mtime = clock; break; }
    case 'r': {
        Ino n, p, q, m;
        std::string a, b;
        if (fs.resolve("/", e.path, false, n, &p, &a) || !p) break;
        fs.remove_tree(e.data);
        fs.resolve("/", e.data, false, m, &q, &b);
        if (!q) break;
        p->ents.erase(a);
        q->ents[b] = n;
        if (n->type == 'd') n->parent = q.get();
        break;
    }
    }
    log.str(std::string("edit") + e.kind + e.path + e.data);
}

static std::string read_fd(int fd) {
    off_t n = lseek(fd, 0, SEEK_END);
    if (n > (1 << 20)) n = 1 << 20;
    std::string s((size_t)n, 0);
    ssize_t r = pread(fd, &s[0], (size_t)n, 0);
    s.resize(r < 0 ? 0 : (size_t)r);
    return s;
}

void Kernel::spawn(Proc& p, int idx, RunCfg const& c) {
    Slot& s = slot(idx);
    p.idx = idx;
    p.cfg = &c;
    p.cwd = c.cwd;
    p.shm = s.shm;
    memset(p.shm, 0, offsetof(Rpc, data));
    p.fd_out = s.out;
    p.fd_err = s.err;
    if (ftruncate(s.out, 0) || ftruncate(s.err, 0)) exit(3);
    lseek(s.out, 0, SEEK_SET);
    lseek(s.err, 0, SEEK_SET);
    p.chunk = Rng(c.chunk_seed * 31 + (uint64_t)idx + 7);
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) { perror("qbsim: socketpair"); exit(3); }
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("qbsim: fork"); exit(3); }
    if (pid == 0) {
        close(sv[0]);
        for (int i = 0; i < 32; ++i) signal(i, SIG_DFL);
        struct rlimit rl;
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = 8;
        rl.rlim_max = 9;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 16 << 20; // captured output
        setrlimit(RLIMIT_FSIZE, &rl);
        dup2(s.out, 1);
        dup2(s.err, 2);
        if (c.lost) {
            // nobody takes what the run says
            int full = open("/dev/full", O_WRONLY);
            int pp[2];
            if (full < 0 || pipe(pp)) _exit(77);
            close(pp[0]);
            signal(SIGPIPE, SIG_IGN);
            if (c.lost & 1) dup2(full, 1);
            if (c.lost & 2) dup2(full, 2);
            if (c.lost & 4) dup2(pp[1], 1);
            if (c.lost & 8) dup2(pp[1], 2);
            close(full);
            close(pp[1]);
        }
        int nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0);
        clearenv();
        for (auto& e : c.env) setenv(e.first.c_str(), e.second.c_str(), 1);
        setenv("TZ", c.tz.c_str(), 1);
        tzset();
        std::vector<char*> argv;
        argv.push_back(strdup("quickbook"));
        for (auto& a : c.args) argv.push_back(strdup(a.c_str()));
        int argc = (int)argv.size();
        argv.push_back(0);
        ChildCfg cc;
        cc.heap_mode = c.heap_mode;
        cc.heap_seed = c.heap_seed;
        cc.alloc_fail_at = c.alloc_fail_at;
        cc.alloc_fail_count = c.alloc_fail_count;
        cc.ambient = c.ambient;
        cc.record_sites = c.record_sites;
        EntryFn fn = entry_quickbook;
        if (!c.entry.empty()) fn = entries()[c.entry];
        char** av = (char**)malloc(sizeof(char*) * argv.size());
        memcpy(av, argv.data(), sizeof(char*) * argv.size());
        child_run(sv[1], p.shm, cc, fn, argc, av);
    }
    close(sv[1]);
    p.pid = pid;
    p.sock = sv[0];
    p.live = true;
    p.pending = wait_request(p);
    if (!p.pending) reap(p, false);
}

bool Kernel::wait_request(Proc& p) {
    char c;
    for (;;) {
        ssize_t r = read(p.sock, &c, 1);
        if (r == 1) return true;
        if (r < 0 && errno == EINTR) continue;
        return false; // the process is gone
    }
}

void Kernel::reap(Proc& p, bool killed) {
    int st = 0;
    if (killed) kill(p.pid, SIGKILL);
    while (waitpid(p.pid, &st, 0) < 0 && errno == EINTR) {}
    close(p.sock);
    p.live = p.pending = false;
    ProcResult& r = p.res;
    if (killed) {
        r.crashed = !p.call_budget;
        r.hung = p.call_budget;
        r.sig = SIGKILL;
    }
    else if (WIFEXITED(st)) {
        r.exited = true;
        r.code = WEXITSTATUS(st);
    }
    else {
        r.sig = WTERMSIG(st);
        if (r.sig == SIGXCPU || r.sig == SIGKILL) r.hung = true;
    }
    r.out = read_fd(p.fd_out);
    r.err = read_fd(p.fd_err);
    if (r.exited && r.code == 94) r.err = plain_report(r.err);
    r.allocs = p.shm->alloc_count;
    r.alloc_failed = p.shm->alloc_failed;
    if (p.cfg->record_sites)
        for (int k = 0; k < 2; ++k)
            r.sites[k].assign(p.shm->sites[k], p.shm->sites[k] + (r.allocs < RPC_SITES ? r.allocs : RPC_SITES));
    r.heap_error = p.shm->heap_error;
    r.unsupported = p.shm->unsupported;
    if (r.exited && r.code >= 95 && r.code <= 98 && !p.shm->reached_exit && !r.heap_error) {
        fprintf(stderr, "qbsim: simulated process failed to start (%d): %s\n", r.code, r.err.c_str());
        exit(3);
    }
    if (r.heap_error && r.heap_error != 4) r.exited = false, r.sig = SIGABRT;
    for (auto& h : p.h) h = Handle();
    log.u64((uint64_t)(r.exited ? r.code : 1000 + r.sig));
    log.str(r.out);
    log.str(r.err);
    log.u64((uint64_t)r.allocs);
    stats->allocs += r.allocs;
}

std::string Kernel::abspath(Proc& p, const std::string& path) {
    if (path.empty()) return "";
    if (path[0] == '/') return lexnorm(path);
    return lexnorm(p.cwd + "/" + path);
}

void Kernel::count_fault(int act, int op, int err, const std::string& path) {
    ++stats->faults[act];
    std::string k = std::string(op_name(op)) + "/" + (act == A_FAIL ? errno_name(err) : act_name(act));
    ++stats->fault_kinds[k];
    Hash h;
    h.str(k);
    h.str(path);
    stats->fault_points.insert(h.h);
}

static uint32_t type_bits(Ino const& n) {
    return n->type == 'd' ? S_IFDIR : n->type == 'l' ? S_IFLNK : S_IFREG;
}
static void to_stat(Ino const& n, StatBuf& s) {
    s.ino = n->ino;
    s.size = n->type == 'd' ? 4096 : n->data.size();
    s.nlink = n->type == 'd' ? 2 : (uint64_t)n->nlink;
    s.mode = type_bits(n) | (uint32_t)n->mode;
    s.mtime_s = n->mtime / 1000000000;
    s.mtime_ns = n->mtime % 1000000000;
}

static std::string canon_of(Vfs& fs, Ino const& n) {
    // only used for the trace: search upwards for directories, down for files
    std::vector<std::pair<Inode*, std::string>> st;
    st.push_back(std::make_pair(fs.root.get(), std::string()));
    while (!st.empty()) {
        auto c = st.back();
        st.pop_back();
        if (c.first == n.get()) return c.second.empty() ? "/" : c.second;
        for (auto& e : c.first->ents) st.push_back(std::make_pair(e.second.get(), c.second + "/" + e.first));
    }
    return "";
}

// Executes the request as the file system would.  Sets ev.err / ev.ret.
void Kernel::do_op(Proc& p, Ev& ev, int64_t limit) {
    Rpc* q = p.shm;
    int op = ev.op;
    q->ret = 0;
    q->err = 0;
    std::string path = q->path;
    auto fail = [&](int e) { q->err = e; q->ret = -1; };
    auto handle = [&]() -> Handle* {
        int64_t i = q->a;
        if (i < 0 || i >= (int64_t)p.h.size() || !p.h[(size_t)i].used) { fail(EBADF); return 0; }
        return &p.h[(size_t)i];
    };
    fs.now = clock;
    switch (op) {
    case OP_OPEN: {
        int fl = (int)q->a;
        Ino n, par;
        std::string name;
        int r = fs.resolve(p.cwd, path, !(fl & O_NOFOLLOW), n, &par, &name);
        if (r == -ENOENT && (fl & O_CREAT) && par && !par->ents.count(name) && path[path.size() - 1] != '/') {
            if (!(par->mode & 0200)) return fail(EACCES);
            n = fs.make('f', (int)q->b & 0644);
            n->volatile_entry = true;
            par->ents[name] = n;
            par->mtime = clock;
        }
        else if (r) return fail(-r);
        else {
            if ((fl & O_CREAT) && (fl & O_EXCL)) return fail(EEXIST);
            if (n->type == 'l') return fail(ELOOP);
            if (n->type == 'd' && ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT))) return fail(EISDIR);
            if ((fl & O_DIRECTORY) && n->type != 'd') return fail(ENOTDIR);
            int acc = fl & O_ACCMODE;
            if (acc != O_WRONLY && !(n->mode & 0400)) return fail(EACCES);
            if (acc != O_RDONLY && !(n->mode & 0200)) return fail(EACCES);
            if ((fl & O_TRUNC) && acc != O_RDONLY) {
                fs.used -= (int64_t)n->data.size();
                n->data.clear();
                n->dirty = true;
                n->mtime = clock;
            }
        }
        size_t i = 0;
        while (i < p.h.size() && p.h[i].used) ++i;
        if (i >= 1000) return fail(EMFILE);
        if (p.cfg->max_files) {
            int open_now = 0;
            for (auto& x : p.h) open_now += x.used;
            if (open_now >= p.cfg->max_files) return fail(EMFILE);
        }
        if (i == p.h.size()) p.h.push_back(Handle());
        Handle& h = p.h[i];
        h = Handle();
        h.used = true;
        h.ino = n;
        h.flags = fl;
        h.path = ev.path;
        h.dir = n->type == 'd';
        if (h.dir) {
            for (auto& e : n->ents) h.list.push_back(std::make_pair(e.first, e.second));
            if (kcfg.dir_seed) {
                Rng r(kcfg.dir_seed * 1000003 + ++dir_counter);
                r.shuffle(h.list);
            }
            // real directories also list . and ..
            h.list.insert(h.list.begin(), std::make_pair(std::string("."), n));
            h.list.insert(h.list.begin() + 1, std::make_pair(std::string(".."), n));
        }
        ev.canon = canon_of(fs, n);
        q->ret = (int64_t)i;
        break;
    }
    case OP_READ: {
        Handle* h = handle();
        if (!h) return;
        if ((h->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
        if (h->dir) return fail(EISDIR);
        int64_t n = q->b;
        if (limit >= 0 && n > limit) n = limit;
        int64_t left = (int64_t)h->ino->data.size() - h->pos;
        if (left < 0) left = 0;
        if (n > left) n = left;
        memcpy(q->data, h->ino->data.data() + h->pos, (size_t)n);
        h->pos += n;
        q->ret = n;
        break;
    }
    case OP_WRITE: {
        Handle* h = handle();
        if (!h) return;
        if ((h->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
        int64_t n = q->b;
        if (limit >= 0 && n > limit) n = limit;
        std::string& d = h->ino->data;
        if (h->flags & O_APPEND) h->pos = (int64_t)d.size();
        int64_t grow = h->pos + n - (int64_t)d.size();
        if (fs.capacity >= 0 && grow > 0 && fs.used + grow > fs.capacity) {
            int64_t room = fs.capacity - fs.used;
            if (room < 0) room = 0;
            n -= grow - room;
            if (n <= 0) {
                count_fault(A_FAIL, OP_WRITE, ENOSPC, h->path);
                ev.injected = true;
                return fail(ENOSPC);
            }
            count_fault(A_SHORT, OP_WRITE, 0, h->path);
        }
        if (h->pos + n > (int64_t)d.size()) {
            fs.used += h->pos + n - (int64_t)d.size();
            d.resize((size_t)(h->pos + n));
        }
        memcpy(&d[0] + h->pos, q->data, (size_t)n);
        h->pos += n;
        h->ino->dirty = true;
        h->ino->mtime = clock;
        if (record_data) log.bytes(q->data, (size_t)n);
        q->ret = n;
        break;
    }
    case OP_CLOSE: {
        Handle* h = handle();
        if (!h) return;
        *h = Handle();
        break;
    }
    case OP_LSEEK: {
        Handle* h = handle();
        if (!h) return;
        int64_t base = q->c == SEEK_SET ? 0 : q->c == SEEK_CUR ? h->pos : (int64_t)h->ino->data.size();
        if (base + q->b < 0) return fail(EINVAL);
        h->pos = base + q->b;
        q->ret = h->pos;
        break;
    }
    case OP_FSTAT: {
        Handle* h = handle();
        if (!h) return;
        to_stat(h->ino, q->st);
        break;
    }
    case OP_FIONREAD: {
        Handle* h = handle();
        if (!h) return;
        q->ret = (int64_t)h->ino->data.size() - h->pos;
        break;
    }
    case OP_STAT:
    case OP_LSTAT: {
        Ino n;
        int r = fs.resolve(p.cwd, path, op == OP_STAT, n);
        if (r) return fail(-r);
        to_stat(n, q->st);
        ev.canon = canon_of(fs, n);
        q->ret = 0;
        break;
    }
    case OP_ACCESS: {
        Ino n;
        int r = fs.resolve(p.cwd, path, true, n);
        if (r) return fail(-r);
        if (((q->a & 4) && !(n->mode & 0400)) || ((q->a & 2) && !(n->mode & 0200)) ||
            ((q->a & 1) && !(n->mode & 0100)))
            return fail(EACCES);
        break;
    }
    case OP_READDIR: {
        Handle* h = handle();
        if (!h) return;
        if (!h->dir) return fail(ENOTDIR);
        // an entry removed meanwhile may be skipped
        while (h->dpos > 1 && h->dpos < h->list.size() && !h->ino->ents.count(h->list[h->dpos].first)) ++h->dpos;
        if (h->dpos >= h->list.size()) { q->ret = 0; break; }
        auto& e = h->list[h->dpos++];
        strncpy(q->path, e.first.c_str(), RPC_PATH - 1);
        q->st.ino = e.second->ino;
        q->b = kcfg.dt_unknown ? DT_UNKNOWN
                               : e.second->type == 'd' ? DT_DIR : e.second->type == 'l' ? DT_LNK : DT_REG;
        q->ret = 1;
        ev.path2 = e.first;
        break;
    }
    case OP_CLOSEDIR: {
        Handle* h = handle();
        if (!h) return;
        *h = Handle();
        break;
    }
    case OP_MKDIR: {
        int r = fs.mkdir(p.cwd, path, (int)q->a);
        if (r) return fail(-r);
        break;
    }
    case OP_RMDIR:
    case OP_UNLINK: {
        Ino n, par;
        std::string name;
        int r = fs.resolve(p.cwd, path, false, n, &par, &name);
        if (r) return fail(-r);
        if (!par) return fail(EBUSY);
        if (!(par->mode & 0200)) return fail(EACCES);
        if (op == OP_UNLINK && n->type == 'd') return fail(EISDIR);
        if (op == OP_RMDIR && n->type != 'd') return fail(ENOTDIR);
        if (op == OP_RMDIR && !n->ents.empty()) return fail(ENOTEMPTY);
        par->ents.erase(name);
        if (n->type == 'f' && --n->nlink <= 0) fs.used -= (int64_t)n->data.size();
        break;
    }
    case OP_RENAME: {
        Ino n, par, m, par2;
        std::string name, name2;
        int r = fs.resolve(p.cwd, path, false, n, &par, &name);
        if (r) return fail(-r);
        int r2 = fs.resolve(p.cwd, q->path2, false, m, &par2, &name2);
        if (r2 && !(r2 == -ENOENT && par2)) return fail(-r2);
        if (!par || !par2) return fail(EBUSY);
        if (!(par->mode & 0200) || !(par2->mode & 0200)) return fail(EACCES);
        if (!r2) {
            if (m == n) break;
            if (m->type == 'd' && n->type != 'd') return fail(EISDIR);
            if (m->type != 'd' && n->type == 'd') return fail(ENOTDIR);
            if (m->type == 'd' && !m->ents.empty()) return fail(ENOTEMPTY);
            if (m->type == 'f' && --m->nlink <= 0) fs.used -= (int64_t)m->data.size();
        }
        par->ents.erase(name);
        par2->ents[name2] = n;
        n->volatile_entry = false;
        if (n->type == 'd') n->parent = par2.get();
        break;
    }
    case OP_LINK: {
        Ino n, m, par2;
        std::string name2;
        int r = fs.resolve(p.cwd, path, false, n);
        if (r) return fail(-r);
        int r2 = fs.resolve(p.cwd, q->path2, false, m, &par2, &name2);
        if (!r2) return fail(EEXIST);
        if (r2 != -ENOENT || !par2) return fail(-r2);
        ++n->nlink;
        par2->ents[name2] = n;
        break;
    }
    case OP_SYMLINK: {
        Ino m, par2;
        std::string name2;
        int r2 = fs.resolve(p.cwd, q->path2, false, m, &par2, &name2);
        if (!r2) return fail(EEXIST);
        if (r2 != -ENOENT || !par2) return fail(-r2);
        Ino n = fs.make('l', 0777);
        n->data = path;
        par2->ents[name2] = n;
        break;
    }
    case OP_READLINK: {
        Ino n;
        if (q->a == 1) {
            int r = fs.resolve(p.cwd, path, true, n);
            if (r) return fail(-r);
            std::string c = canon_of(fs, n);
            memcpy(q->data, c.data(), c.size());
            q->ret = (int64_t)c.size();
            break;
        }
        int r = fs.resolve(p.cwd, path, false, n);
        if (r) return fail(-r);
        if (n->type != 'l') return fail(EINVAL);
        memcpy(q->data, n->data.data(), n->data.size());
        q->ret = (int64_t)n->data.size();
        break;
    }
    case OP_CHMOD: {
        Ino n;
        int r = fs.resolve(p.cwd, path, true, n);
        if (r) return fail(-r);
        n->mode = (int)q->a & 0777;
        break;
    }
    case OP_UTIME: {
        Ino n;
        int r = fs.resolve(p.cwd, path, true, n);
        if (r) return fail(-r);
        n->mtime = q->a * 1000000000;
        break;
    }
    case OP_TRUNCATE:
    case OP_FTRUNCATE: {
        Ino n;
        int64_t len;
        if (op == OP_TRUNCATE) {
            int r = fs.resolve(p.cwd, path, true, n);
            if (r) return fail(-r);
            len = q->a;
        }
        else {
            Handle* h = handle();
            if (!h) return;
            n = h->ino;
            len = q->b;
        }
        if (n->type != 'f') return fail(EISDIR);
        fs.used += len - (int64_t)n->data.size();
        n->data.resize((size_t)len);
        n->dirty = true;
        break;
    }
    case OP_FSYNC: {
        Handle* h = handle();
        if (!h) return;
        h->ino->durable = h->ino->data;
        h->ino->dirty = false;
        h->ino->volatile_entry = false;
        break;
    }
    case OP_GETCWD: {
        Ino n;
        if (fs.resolve("/", p.cwd, true, n)) return fail(ENOENT);
        strncpy(q->path, lexnorm(p.cwd).c_str(), RPC_PATH - 1);
        break;
    }
    case OP_CHDIR: {
        Ino n;
        int r = fs.resolve(p.cwd, path, true, n);
        if (r) return fail(-r);
        if (n->type != 'd') return fail(ENOTDIR);
        p.cwd = ev.path;
        break;
    }
    case OP_TIME: q->ret = clock; break;
    case OP_SLEEP:
        clock += q->a;
        break;
    case OP_STATFS:
        q->ret = fs.capacity < 0 ? (1ll << 40) : fs.capacity - fs.used;
        break;
    case OP_RANDOM: {
        Rng r(random_state);
        q->ret = (int64_t)r.next();
        random_state = r.s;
        break;
    }
    case OP_GETENV: {
        std::string name = path;
        q->ret = -1;
        std::string v;
        bool have = false;
        for (auto& e : p.cfg->env)
            if (e.first == name) { v = e.second; have = true; }
        if (name == "TZ") { v = p.cfg->tz; have = true; }
        if (!have && p.cfg->env_seed && name != "PATH") {
            Rng r(hash_str(name) ^ p.cfg->env_seed);
            static const char* vals[] = {"", "1", "0", "/w", "yes", "123456789"};
            if (r.chance(1, 2)) { v = vals[r.below(6)]; have = true; }
        }
        if (have) {
            memcpy(q->data, v.data(), v.size());
            q->ret = (int64_t)v.size();
        }
        break;
    }
    default: fail(ENOSYS);
    }
}

void Kernel::serve(Proc& p) {
    Rpc* q = p.shm;
    Ev ev;
    ev.proc = (uint8_t)p.idx;
    ev.op = (uint8_t)q->op;
    clock += kcfg.tick;
    ++p.res.calls;
    ++stats->calls;
    bool by_handle = ev.op == OP_READ || ev.op == OP_WRITE || ev.op == OP_CLOSE || ev.op == OP_LSEEK ||
                     ev.op == OP_FSTAT || ev.op == OP_READDIR || ev.op == OP_CLOSEDIR ||
                     ev.op == OP_FTRUNCATE || ev.op == OP_FSYNC || ev.op == OP_FIONREAD;
    bool no_path = ev.op == OP_GETCWD || ev.op == OP_TIME || ev.op == OP_RANDOM || ev.op == OP_SLEEP;
    if (by_handle) {
        if (q->a >= 0 && q->a < (int64_t)p.h.size() && p.h[(size_t)q->a].used) ev.path = p.h[(size_t)q->a].path;
        ev.flags = (int)q->b;
    }
    else if (ev.op == OP_GETENV) ev.path = q->path;
    else if (!no_path) {
        auto at = [&](int32_t d, char* path) {
            if (!d || path[0] == '/' || d > (int32_t)p.h.size() || !p.h[(size_t)d - 1].used) return;
            std::string s = p.h[(size_t)d - 1].path + "/" + path;
            if (s.size() < RPC_PATH) memcpy(path, s.c_str(), s.size() + 1);
        };
        at(q->dfd, q->path);
        at(q->dfd2, q->path2);
        q->dfd = q->dfd2 = 0;
        ev.path = abspath(p, q->path);
        ev.raw = q->path;
        if (ev.op == OP_RENAME || ev.op == OP_LINK || ev.op == OP_SYMLINK) ev.path2 = abspath(p, q->path2);
        if (ev.op == OP_OPEN) ev.flags = (int)q->a;
    }

    // Which faults does this call meet?
    int64_t limit = -1;
    int fail_err = 0;
    bool crash = false, crash_after = false, torn = false;
    int64_t close_lose = -1;
    for (auto& s : fstate) {
        Fault& f = s.f;
        if (f.run != run_index) continue;
        if (f.proc >= 0 && f.proc != p.idx) continue;
        if (f.op && f.op != ev.op) continue;
        if (f.path != "*" && f.path != ev.path) continue;
        ++s.seen;
        if (s.seen < f.nth || (f.count && s.seen >= f.nth + f.count)) continue;
        switch (f.act) {
        case A_FAIL: fail_err = f.err; break;
        case A_SHORT: limit = f.param < 1 ? 1 : f.param; break;
        case A_CRASH: crash = true; break;
        case A_CRASH_AFTER: crash_after = true; break;
        case A_CLOSELOSE:
            if (ev.op != OP_CLOSE) continue;
            fail_err = f.err;
            close_lose = f.param;
            break;
        case A_TORN:
            if (ev.op != OP_WRITE) continue;
            fail_err = f.err;
            limit = f.param;
            torn = true;
            break;
        case A_EDIT:
            if (f.param >= 0 && f.param < (int64_t)edits.size()) apply(edits[(size_t)f.param]);
            break;
        case A_CLOCK: clock += f.param; break;
        }
        count_fault(f.act, ev.op, f.err, ev.path);
        ev.injected = true;
    }
    RunCfg const& c = *p.cfg;
    if ((ev.op == OP_READ || ev.op == OP_WRITE) && !fail_err && !crash && limit < 0) {
        int64_t m = ev.op == OP_READ ? c.read_max : c.write_max;
        if (m > 0) {
            limit = c.chunk_seed ? 1 + (int64_t)p.chunk.below((uint64_t)m) : m;
            if (limit < q->b) count_fault(A_SHORT, ev.op, 0, "*");
        }
        if (c.eintr && p.eintr_run < 3 && p.chunk.below((uint64_t)c.eintr) == 0) {
            ++p.eintr_run;
            fail_err = EINTR;
            count_fault(A_FAIL, ev.op, EINTR, "*");
            ev.injected = true;
        }
        else p.eintr_run = 0;
    }
    if (crash) {
        p.killed_by_sim = true;
        ev.err = -1;
        trace.push_back(ev);
        log.str("crash");
        reap(p, true);
        return;
    }
    if (fail_err && (close_lose >= 0 || torn)) {
        if (torn) {
            if (limit > 0) do_op(p, ev, limit);
        }
        else {
            Handle* h = q->a >= 0 && q->a < (int64_t)p.h.size() ? &p.h[(size_t)q->a] : 0;
            if (h && h->used && h->ino && !h->dir && (int64_t)h->ino->data.size() > close_lose &&
                (h->flags & O_ACCMODE) != O_RDONLY) {
                fs.used -= (int64_t)h->ino->data.size() - close_lose;
                h->ino->data.resize((size_t)close_lose);
            }
            do_op(p, ev, -1); // the descriptor is released all the same
        }
        q->err = fail_err;
        q->ret = -1;
    }
    else if (fail_err) {
        q->err = fail_err;
        q->ret = -1;
        // a failing close still releases the descriptor
        if ((ev.op == OP_CLOSE || ev.op == OP_CLOSEDIR) && q->a >= 0 && q->a < (int64_t)p.h.size())
            p.h[(size_t)q->a] = Handle();
    }
    else do_op(p, ev, limit);
    ev.err = (int16_t)q->err;
    ev.ret = q->ret;
    log.u64((uint64_t)ev.proc << 32 | ev.op);
    log.str(ev.path);
    log.u64((uint64_t)ev.ret);
    log.u64((uint64_t)ev.err);
    trace.push_back(ev);
    if (crash_after) {
        log.str("crash");
        reap(p, true);
        return;
    }
    char b = 1;
    p.pending = false;
    if (write(p.sock, &b, 1) == 1 && wait_request(p)) p.pending = true;
    else reap(p, false);
}

std::vector<ProcResult> Kernel::run(Group const& g, std::vector<Fault> const& faults) {
    static bool once = false;
    if (!once) { signal(SIGPIPE, SIG_IGN); once = true; }
    fstate.clear();
    for (auto& f : faults) { FaultState s; s.f = f; fstate.push_back(s); }
    int64_t t0 = clock;
    size_t tr0 = trace.size();
    std::vector<Proc> ps(g.procs.size());
    for (size_t i = 0; i < ps.size(); ++i) {
        ++stats->processes;
        spawn(ps[i], (int)i, g.procs[i]);
    }
    int cur = 0, calls = 0;
    Hash il;
    size_t si = 0;
    std::vector<Switch> sw = g.switches;
    std::stable_sort(sw.begin(), sw.end(), [](Switch const& a, Switch const& b) { return a.at < b.at; });
    for (;;) {
        while (si < sw.size() && sw[si].at <= calls) {
            if (sw[si].to >= 0 && sw[si].to < (int)ps.size() && ps[(size_t)sw[si].to].live) cur = sw[si].to;
            ++si;
        }
        if (!ps[(size_t)cur].live) {
            int n = -1;
            for (size_t i = 0; i < ps.size(); ++i)
                if (ps[i].live) { n = (int)i; break; }
            if (n < 0) break;
            cur = n;
        }
        Proc& p = ps[(size_t)cur];
        if (p.res.calls >= g.max_calls) {
            p.call_budget = true;
            reap(p, true);
            continue;
        }
        serve(p);
        ++calls;
        Ev& e = trace.back();
        il.u64((uint64_t)e.proc << 8 | e.op);
        il.str(e.path);
        il.u64((uint64_t)(e.injected ? e.err + 1 : 0));
    }
    stats->interleavings.insert(il.h);
    stats->sim_ns += clock - t0 > 0 ? clock - t0 : 0;
    std::vector<ProcResult> r;
    for (auto& p : ps) r.push_back(p.res);
    ++run_index;
    (void)tr0;
    return r;
}

ProcResult Kernel::run1(RunCfg const& c, std::vector<Fault> const& faults) {
    Group g;
    g.procs.push_back(c);
    return run(g, faults)[0];
}

std::string flags_str(int fl) {
    int acc = fl & O_ACCMODE;
    std::string s = acc == O_RDONLY ? "r" : acc == O_WRONLY ? "w" : "rw";
    if (fl & O_CREAT) s += "+creat";
    if (fl & O_TRUNC) s += "+trunc";
    if (fl & O_DIRECTORY) s += "+dir";
    return s;
}
std::string trace_str(std::vector<Ev> const& t) {
    std::string r;
    for (auto& e : t) {
        r += fmt("p%d %s %s", e.proc, op_name(e.op), e.path.c_str());
        if (e.op == OP_OPEN) r += " " + flags_str(e.flags);
        if (!e.path2.empty()) r += " " + e.path2;
        if (e.err > 0) r += " -> " + errno_name(e.err);
        else if (e.err < 0) r += " -> killed";
        else r += fmt(" -> %lld", (long long)e.ret);
        if (e.injected) r += " [injected]";
        r += "\n";
    }
    return r;
}

} // namespace qs
