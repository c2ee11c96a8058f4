// qbsim: command line.
//   qbsim check ID quick|thorough [--seed N] [--cases N] [--first N] [--out DIR]
//   qbsim replay FILE [-v]
//   qbsim show ID INDEX [--seed N]      prints the scenario and what it does
//   qbsim determinism ID CASES          runs every case twice, compares the logs
//   qbsim gen N                         validates the workload generator
#include "gen.hpp"
#include "util.hpp"
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <cerrno>

int quickbook_main(int, char**);

namespace qs {
void reset_slots();
void register_components();
}
using namespace qs;

static std::string g_home = "/verif";

static std::string slurp(const std::string& p) {
    std::ifstream in(p.c_str(), std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}
static void spew(const std::string& p, const std::string& d) {
    std::ofstream o(p.c_str(), std::ios::binary);
    o << d;
    o.close();
    if (!o) { fprintf(stderr, "qbsim: cannot write %s\n", p.c_str()); exit(3); }
}

static Property const* find_prop(const std::string& id) {
    for (auto& p : properties())
        if (id == p.id) return &p;
    return 0;
}
static uint64_t case_seed(uint64_t seed, const char* id, int index) {
    Hash h;
    h.u64(seed);
    h.str(id);
    h.u64((uint64_t)index);
    return h.h;
}
static Scenario make_case(Property const& p, uint64_t seed, int index, Ctx& ctx) {
    uint64_t cs = case_seed(seed, p.id, index);
    Rng r(cs);
    Scenario s = p.generate(r, ctx, index);
    s.prop = p.id;
    s.seed = cs;
    return s;
}

// ---------------------------------------------------------------- known findings
struct Known {
    std::string prop, cls, key, replay, text;
};
// known: property=P01 class=... key="..." replay=known/x.qbsim what fails
static std::vector<Known> load_known() {
    std::vector<Known> r;
    for (auto& l : split_lines(slurp(g_home + "/known_findings.txt"))) {
        if (!starts_with(l, "known: ")) continue;
        Known k;
        const char* p = l.c_str() + 7;
        for (;;) {
            while (*p == ' ') ++p;
            const char* e = p;
            while (*e && *e != '=' && *e != ' ') ++e;
            std::string name(p, e);
            if (*e != '=' || (name != "property" && name != "class" && name != "key" && name != "replay")) break;
            p = e + 1;
            std::string v;
            if (*p == '"') { if (!unquote(p, v)) break; }
            else while (*p && *p != ' ') v += *p++;
            (name == "property" ? k.prop : name == "class" ? k.cls : name == "key" ? k.key : k.replay) = v;
        }
        k.text = p;
        if (!k.prop.empty()) r.push_back(k);
    }
    return r;
}
static bool is_known(std::vector<Known> const& ks, const std::string& prop, Violation const& v) {
    for (auto& k : ks)
        if (k.prop == prop && k.cls == v.cls && contains(v.detail, k.key)) return true;
    return false;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
    Property const& p;
    Stats& st;
    std::string cls;
    std::vector<Known> const& known;
    int evals = 0;
    double until;
    Minimiser(Property const& p_, Stats& s_, const std::string& c, std::vector<Known> const& k)
        : p(p_), st(s_), cls(c), known(k), until(now_s() + 60) {}
    bool budget() const { return evals < 400 && now_s() < until; }
    bool still(Scenario const& s) {
        if (!budget()) return false;
        ++evals;
        Ctx c(&st);
        Violation v = p.evaluate(s, c);
        return v && v.cls == cls && !is_known(known, p.id, v);
    }
    bool try_(Scenario& s, Scenario const& t) {
        if (!still(t)) return false;
        s = t;
        return true;
    }
    template <class F> void knob(Scenario& s, F f) {
        Scenario t = s;
        f(t);
        if (to_text(t) != to_text(s)) try_(s, t);
    }
    void run(Scenario& s) {
        bool shrink_files = s.get("noshrink") != "1";
        for (int round = 0; round < 2 && budget(); ++round) {
            std::string before = to_text(s);
            for (size_t i = s.faults.size(); i-- > 0 && budget();) {
                Scenario t = s;
                t.faults.erase(t.faults.begin() + (long)i);
                try_(s, t);
            }
            for (size_t i = s.steps.size(); i-- > 0 && s.steps.size() > 1 && budget();) {
                Scenario t = s;
                t.steps.erase(t.steps.begin() + (long)i);
                try_(s, t);
            }
            for (auto& f : s.faults)
                if (f.count == 0 || f.count > 1) {
                    Scenario t = s;
                    t.faults[(size_t)(&f - &s.faults[0])].count = 1;
                    if (still(t)) f.count = 1;
                }
            for (size_t g = 0; g < s.groups.size(); ++g)
                for (size_t i = s.groups[g].switches.size(); i-- > 0 && budget();) {
                    Scenario t = s;
                    t.groups[g].switches.erase(t.groups[g].switches.begin() + (long)i);
                    try_(s, t);
                }
            knob(s, [](Scenario& t) { t.k.dir_seed = 0; });
            knob(s, [](Scenario& t) { t.k.dt_unknown = false; });
            knob(s, [](Scenario& t) { t.k.ino_base = 100; });
            knob(s, [](Scenario& t) { t.k.capacity = -1; });
            for (size_t g = 0; g < s.groups.size(); ++g)
                for (size_t q = 0; q < s.groups[g].procs.size(); ++q) {
                    knob(s, [&](Scenario& t) { RunCfg& c = t.groups[g].procs[q]; c.read_max = c.write_max = 0; c.chunk_seed = 0; });
                    knob(s, [&](Scenario& t) { t.groups[g].procs[q].eintr = 0; });
                    knob(s, [&](Scenario& t) { t.groups[g].procs[q].lost &= 1 | 4; });
                    knob(s, [&](Scenario& t) { t.groups[g].procs[q].lost &= 2 | 8; });
                    knob(s, [&](Scenario& t) { t.groups[g].procs[q].max_files = 0; });
                    knob(s, [&](Scenario& t) { RunCfg& c = t.groups[g].procs[q]; c.heap_mode = 0; c.heap_seed = 2; });
                    knob(s, [&](Scenario& t) { t.groups[g].procs[q].env.clear(); });
                    knob(s, [&](Scenario& t) { t.groups[g].procs[q].env_seed = 0; });
                    knob(s, [&](Scenario& t) { t.groups[g].procs[q].ambient = 1; });
                    static const char* solo[] = {"--no-pretty-print", "--ms-errors", "--no-self-linked-headers"};
                    static const char* pre[] = {"--indent=", "--linewidth=", "--css-path=", "--boost-root-path="};
                    std::vector<std::string>& a = s.groups[g].procs[q].args;
                    for (size_t i = a.size(); i-- > 0 && budget();) {
                        bool one = false, two = a[i] == "-D";
                        for (auto x : solo) if (a[i] == x) one = true;
                        for (auto x : pre) {
                            if (starts_with(a[i], x)) one = true;
                            if (a[i] + "=" == x) two = true;
                        }
                        if (!one && !two) continue;
                        Scenario t = s;
                        auto& b = t.groups[g].procs[q].args;
                        b.erase(b.begin() + (long)i, b.begin() + (long)std::min(b.size(), i + (two ? 2 : 1)));
                        if (!try_(s, t)) continue;
                        i = std::min(i + 1, s.groups[g].procs[q].args.size());
                    }
                }
            if (shrink_files) {
                for (size_t i = s.files.size(); i-- > 0 && budget();) {
                    if (s.files[i].path == s.get("main")) continue;
                    Scenario t = s;
                    t.files.erase(t.files.begin() + (long)i);
                    try_(s, t);
                }
                for (size_t i = 0; i < s.files.size() && budget(); ++i) ddmin(s, i);
            }
            if (to_text(s) == before) break;
        }
    }
    void ddmin(Scenario& s, size_t i) {
        if (s.files[i].type != 'f' || s.files[i].data.size() > 200000) return;
        std::vector<std::string> ls;
        std::string const& d = s.files[i].data;
        size_t b = 0;
        while (b < d.size()) {
            size_t e = d.find('\n', b);
            e = e == std::string::npos ? d.size() : e + 1;
            ls.push_back(d.substr(b, e - b));
            b = e;
        }
        size_t chunk = (ls.size() + 1) / 2;
        while (chunk >= 1 && budget() && !ls.empty()) {
            bool any = false;
            for (size_t at = 0; at < ls.size() && budget();) {
                std::vector<std::string> m(ls.begin(), ls.begin() + (long)at);
                m.insert(m.end(), ls.begin() + (long)std::min(ls.size(), at + chunk), ls.end());
                Scenario t = s;
                if (s.get("model") == "1") {
                    // the reference model reads well-formed sources only
                    long open = 0;
                    for (size_t k = at; k < std::min(ls.size(), at + chunk); ++k)
                        for (char c : ls[k]) open += c == '[' ? 1 : c == ']' ? -1 : 0;
                    if (open) { at += chunk; continue; }
                }
                t.files[i].data.clear();
                for (auto& l : m) t.files[i].data += l;
                if (try_(s, t)) { ls = m; any = true; }
                else at += chunk;
            }
            if (!any || chunk == 1) { if (chunk == 1) break; }
            chunk /= 2;
        }
    }
};

// ---------------------------------------------------------------- workers
struct Shared {
    volatile int best; // lowest index of a violating case so far
};

enum { NO_CASE = 1 << 30, OLD_CASE = -1000000 }; // earlier scenarios have negative numbers
struct WorkerResult {
    Stats st;
    long evaluations = 0, executions = 0, nontrivial = 0, known = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, long> variants;
    int bad_index = NO_CASE;
    std::string bad_text, bad_cls, bad_detail;
    std::vector<std::string> samples;
    bool timeout = false;
};

static void put_set(std::string& o, const char* n, std::set<uint64_t> const& s) {
    o += fmt("S %s %zu\n", n, s.size());
    for (auto v : s) o += fmt("%llx\n", (unsigned long long)v);
}
static std::string serialise(WorkerResult const& w) {
    std::string o;
    o += fmt("N %ld %ld %ld %ld %ld %ld %ld %lld %d %d\n", w.evaluations, w.executions, w.nontrivial, w.known,
        w.st.processes, w.st.calls, w.st.allocs, (long long)w.st.sim_ns, w.bad_index, (int)w.timeout);
    for (int i = 0; i < A_COUNT; ++i) o += fmt("A %d %ld\n", i, w.st.faults[i]);
    for (auto& k : w.st.fault_kinds) o += "K " + quote(k.first) + fmt(" %ld\n", k.second);
    for (auto& k : w.st.probes) o += "P " + quote(k.first) + fmt(" %ld\n", k.second);
    for (auto& k : w.variants) o += "V " + quote(k.first) + fmt(" %ld\n", k.second);
    for (auto& k : w.samples) o += "M " + quote(k) + "\n";
    if (w.bad_index != NO_CASE) o += "B " + quote(w.bad_text) + " " + quote(w.bad_cls) + " " + quote(w.bad_detail) + "\n";
    put_set(o, "distinct", w.distinct);
    put_set(o, "il", w.st.interleavings);
    put_set(o, "fp", w.st.fault_points);
    o += "END\n";
    return o;
}
static bool parse(const std::string& t, WorkerResult& w) {
    std::set<uint64_t>* cur = 0;
    bool end = false;
    for (auto& l : split_lines(t)) {
        const char* p = l.c_str();
        if (cur && !isupper((unsigned char)*p)) { cur->insert(strtoull(p, 0, 16)); continue; }
        std::string a, b, c;
        switch (*p) {
        case 'N': {
            long long ns; int to;
            sscanf(p + 2, "%ld %ld %ld %ld %ld %ld %ld %lld %d %d", &w.evaluations, &w.executions, &w.nontrivial,
                &w.known, &w.st.processes, &w.st.calls, &w.st.allocs, &ns, &w.bad_index, &to);
            w.st.sim_ns = ns;
            w.timeout = to;
            break;
        }
        case 'A': { int i; long n; sscanf(p + 2, "%d %ld", &i, &n); w.st.faults[i] = n; break; }
        case 'K': p += 2; unquote(p, a); w.st.fault_kinds[a] = atol(p); break;
        case 'P': p += 2; unquote(p, a); w.st.probes[a] = atol(p); break;
        case 'V': p += 2; unquote(p, a); w.variants[a] = atol(p); break;
        case 'M': p += 2; unquote(p, a); w.samples.push_back(a); break;
        case 'B':
            p += 2;
            unquote(p, w.bad_text); ++p;
            unquote(p, w.bad_cls); ++p;
            unquote(p, w.bad_detail);
            break;
        case 'S':
            cur = strstr(p, "distinct") ? &w.distinct : strstr(p, " il ") ? &w.st.interleavings : &w.st.fault_points;
            break;
        case 'E': end = true; break;
        }
    }
    return end;
}

static std::string case_line(Scenario const& s) {
    std::string r = fmt("variant %s:", s.variant.c_str());
    if (!s.groups.empty() && !s.groups[0].procs.empty()) {
        r += " quickbook";
        for (auto& a : s.run0().args) r += " " + a;
        r += fmt(" (in %s, %zu files, read<=%lld write<=%lld heap %d)", s.run0().cwd.c_str(), s.files.size(),
            (long long)s.run0().read_max, (long long)s.run0().write_max, s.run0().heap_mode);
    }
    for (auto& f : s.faults) r += "; fault " + fault_str(f);
    for (size_t i = 0; i < s.groups.size(); ++i)
        if (s.groups[i].procs.size() > 1)
            r += fmt("; %zu processes, %zu context switches", s.groups[i].procs.size(), s.groups[i].switches.size());
    if (s.steps.size() > 1) {
        r += "; steps";
        for (auto& st : s.steps) r += fmt(" %c%lld", st.kind, (long long)st.arg);
    }
    if (r.size() > 900) r = r.substr(0, 900) + "...";
    return r;
}

// Scenarios that showed a violation on earlier or broken versions of the code.
static std::vector<Scenario> old_scenarios(const std::string& id) {
    std::vector<Scenario> r;
    std::string dir = g_home + "/regress/" + id;
    std::vector<std::string> names;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d))
            if (ends_with(e->d_name, ".qbsim")) names.push_back(e->d_name);
        closedir(d);
    }
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        Scenario s;
        std::string err;
        if (from_text(slurp(dir + "/" + n), s, err) && s.prop == id) r.push_back(s);
        else fprintf(stderr, "qbsim: %s/%s: %s\n", dir.c_str(), n.c_str(), err.c_str());
    }
    return r;
}
// false: stop
static bool one_case(Property const& p, Scenario const& s, int i, Ctx& ctx, Shared* sh, std::vector<Known> const& known, WorkerResult& res) {
    Violation v = p.evaluate(s, ctx);
    ++res.evaluations;
    res.executions += ctx.executions;
    ++res.variants[i < 0 ? "earlier-scenario" : s.variant];
    if (ctx.nontrivial) {
        ++res.nontrivial;
        Scenario t = s;
        t.seed = 0;
        res.distinct.insert(hash_str(to_text(t)));
        if (res.samples.size() < 2 && i >= 0) res.samples.push_back(fmt("case %d, ", i) + case_line(s));
    }
    if (v) {
        if (is_known(known, p.id, v)) { ++res.known; return true; }
        res.bad_index = i;
        res.bad_text = to_text(s);
        res.bad_cls = v.cls;
        res.bad_detail = v.detail;
        int b = sh->best;
        while (i < b && !__sync_bool_compare_and_swap(&sh->best, b, i)) b = sh->best;
        return false;
    }
    return true;
}
static void work(Property const& p, uint64_t seed, int first, int cases, int w, int nw, Shared* sh, double until,
    std::vector<Known> const& known, WorkerResult& res) {
    std::vector<Scenario> old = old_scenarios(p.id);
    for (int i = OLD_CASE + w; i < OLD_CASE + (int)old.size(); i += nw) {
        if (sh->best <= i) return;
        Ctx ctx(&res.st);
        if (!one_case(p, old[(size_t)(i - OLD_CASE)], i, ctx, sh, known, res)) return;
    }
    for (int i = first + w; i < first + cases; i += nw) {
        if (sh->best <= i) break;
        if (now_s() > until) { res.timeout = true; break; }
        Ctx ctx(&res.st);
        Scenario s = make_case(p, seed, i, ctx);
        if (!one_case(p, s, i, ctx, sh, known, res)) break;
    }
}

static int self_replay(const std::string& path) {
    pid_t pid = fork();
    if (pid == 0) {
        freopen("/dev/null", "w", stdout);
        execl("/proc/self/exe", "qbsim", "replay", path.c_str(), "--home", g_home.c_str(), (char*)0);
        _exit(127);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 255;
}

static int cmd_check(Property const& p, const std::string& tier, uint64_t seed, int first, int cases, int nw, double max_s) {
    double t0 = now_s();
    std::vector<Known> known = load_known();
    int nviol = 0;

    // the findings on record
    std::vector<std::string> known_lines;
    for (auto& k : known) {
        if (k.prop != p.id || k.replay.empty()) continue;
        Scenario s;
        std::string err;
        if (!from_text(slurp(g_home + "/" + k.replay), s, err)) {
            fprintf(stderr, "qbsim: %s: %s\n", k.replay.c_str(), err.c_str());
            return 3;
        }
        Stats st;
        Ctx c(&st);
        Violation v = p.evaluate(s, c);
        if (v && v.cls == k.cls && contains(v.detail, k.key))
            known_lines.push_back("KNOWN-FINDING: property=" + k.prop + " " + k.text);
    }
    for (auto& l : known_lines) printf("%s\n", l.c_str());
    fflush(stdout);

    Shared* sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->best = 1 << 30;
    std::vector<pid_t> pids;
    std::vector<int> fds;
    for (int w = 0; w < nw; ++w) {
        int pf[2];
        if (pipe(pf)) return 3;
        pid_t pid = fork();
        if (pid < 0) return 3;
        if (pid == 0) {
            close(pf[0]);
            for (int f : fds) close(f);
            reset_slots();
            WorkerResult r;
            work(p, seed, first, cases, w, nw, sh, t0 + max_s, known, r);
            std::string o = serialise(r);
            size_t at = 0;
            while (at < o.size()) {
                ssize_t n = write(pf[1], o.data() + at, o.size() - at);
                if (n <= 0) _exit(3);
                at += (size_t)n;
            }
            _exit(0);
        }
        close(pf[1]);
        pids.push_back(pid);
        fds.push_back(pf[0]);
    }
    WorkerResult all;
    bool broken = false;
    for (int w = 0; w < nw; ++w) {
        std::string t;
        char buf[65536];
        ssize_t n;
        while ((n = read(fds[w], buf, sizeof buf)) > 0) t.append(buf, (size_t)n);
        close(fds[w]);
        int st = 0;
        waitpid(pids[w], &st, 0);
        WorkerResult r;
        if (!parse(t, r) || !WIFEXITED(st) || WEXITSTATUS(st)) { broken = true; continue; }
        all.st.merge(r.st);
        all.evaluations += r.evaluations;
        all.executions += r.executions;
        all.nontrivial += r.nontrivial;
        all.known += r.known;
        all.timeout |= r.timeout;
        all.distinct.insert(r.distinct.begin(), r.distinct.end());
        for (auto& v : r.variants) all.variants[v.first] += v.second;
        for (auto& m : r.samples) if (all.samples.size() < 6) all.samples.push_back(m);
        if (r.bad_index < all.bad_index) {
            all.bad_index = r.bad_index;
            all.bad_text = r.bad_text;
            all.bad_cls = r.bad_cls;
            all.bad_detail = r.bad_detail;
        }
    }
    if (broken) {
        fprintf(stderr, "qbsim: a worker failed\n");
        return 3;
    }
    int rc = 0;
    std::string replay;
    if (all.bad_index != NO_CASE) {
        Scenario s;
        std::string err;
        if (!from_text(all.bad_text, s, err)) { fprintf(stderr, "qbsim: bad scenario: %s\n", err.c_str()); return 3; }
        Stats st;
        Ctx a(&st), b(&st);
        Violation va = p.evaluate(s, a), vb = p.evaluate(s, b);
        bool stable = va && vb && va.cls == vb.cls && a.log.h == b.log.h && va.cls == all.bad_cls;
        // Everything the simulator decides repeats. Code that brings in something else (an instruction that
        // gives random numbers, say) may need several attempts; the scenario is then kept as it is.
        for (int i = 0; i < 6 && !stable && !va; ++i) {
            Ctx c(&st);
            va = vb ? vb : p.evaluate(s, c);
        }
        if (!va) {
            fprintf(stderr, "qbsim: case %d is not repeatable: %s / %s / %s\n", all.bad_index, all.bad_cls.c_str(),
                va.cls.c_str(), vb.cls.c_str());
            spew(g_home + "/replays/unrepeatable.qbsim", all.bad_text);
            return 3;
        }
        size_t before = to_text(s).size();
        Minimiser m(p, st, va.cls, known);
        if (stable) m.run(s);
        else printf("the code under test does not behave the same in every execution of this scenario\n");
        Ctx c(&st);
        Violation vm = p.evaluate(s, c);
        if (!stable && !vm) vm = va;
        s.opt["class"] = vm.cls;
        s.opt["detail"] = vm.detail;
        replay = g_home + "/replays/" + p.id + (all.bad_index < 0 ? fmt("-old%d.qbsim", all.bad_index - OLD_CASE) : fmt("-s%llu-c%d.qbsim", (unsigned long long)seed, all.bad_index));
        spew(replay, to_text(s));
        int rr = self_replay(replay);
        for (int i = 0; i < 10 && !stable && rr != 1; ++i) rr = self_replay(replay);
        if (rr != 1) {
            fprintf(stderr, "qbsim: replay of %s ended with %d\n", replay.c_str(), rr);
            return 3;
        }
        nviol = 1;
        rc = 1;
        printf("case %d of seed %llu: %s: %s\n", all.bad_index, (unsigned long long)seed, vm.cls.c_str(), vm.detail.c_str());
        printf("minimised from %zu to %zu bytes in %d evaluations: %s\n", before, to_text(s).size(), m.evals,
            case_line(s).c_str());
        printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str());
    }
    double wall = now_s() - t0;

    // evidence
    std::string e = "{\n";
    e += fmt("  \"property\": \"%s\",\n  \"tier\": \"%s\",\n  \"seed\": %llu,\n  \"level\": \"exploration\",\n", p.id,
        tier.c_str(), (unsigned long long)seed);
    e += "  \"coverage\": {\n";
    e += fmt("    \"evaluations\": %ld,\n    \"distinct_nontrivial\": %zu,\n", all.evaluations, all.distinct.size());
    e += "    \"rule\": " + json_str(p.rule) + ",\n";
    e += fmt("    \"seeds\": %ld,\n    \"seeds_per_hour\": %.0f,\n", all.evaluations, all.evaluations / std::max(wall, 0.001) * 3600);
    e += fmt("    \"simulated_processes\": %ld,\n    \"simulated_runs_per_hour\": %.0f,\n", all.st.processes,
        all.st.processes / std::max(wall, 0.001) * 3600);
    e += fmt("    \"simulated_calls\": %ld,\n    \"simulated_seconds\": %.3f,\n", all.st.calls, all.st.sim_ns / 1e9);
    e += fmt("    \"simulated_allocations\": %ld,\n", all.st.allocs);
    e += fmt("    \"distinct_schedules\": %zu,\n    \"distinct_schedules_measure\": \"hash of the whole sequence of (process, call, path, injected result) of one run group\",\n",
        all.st.interleavings.size());
    e += fmt("    \"distinct_fault_points\": %zu,\n    \"distinct_fault_points_measure\": \"(call, error or action, path) triples at which a fault was delivered\",\n",
        all.st.fault_points.size());
    e += "    \"faults_injected\": {";
    bool f1 = true;
    for (auto& k : all.st.fault_kinds) {
        e += (f1 ? "" : ", ") + json_str(k.first) + fmt(": %ld", k.second);
        f1 = false;
    }
    e += "},\n    \"variants\": {";
    f1 = true;
    for (auto& k : all.variants) { e += (f1 ? "" : ", ") + json_str(k.first) + fmt(": %ld", k.second); f1 = false; }
    e += "},\n    \"reached\": {";
    f1 = true;
    for (auto& k : all.st.probes) { e += (f1 ? "" : ", ") + json_str(k.first) + fmt(": %ld", k.second); f1 = false; }
    e += "},\n";
    e += fmt("    \"known_findings_met\": %ld,\n    \"stopped_by_time_limit\": %s,\n", all.known, all.timeout ? "true" : "false");
    e += "    \"real_code\": \"every translation unit of /repo/src, linked whole, entered through main(); libstdc++, Boost.Filesystem and Boost.Program_options as installed\",\n";
    e += "    \"stubbed\": \"operating system calls (files, directories, clocks, environment, randomness, process ids), the allocator, stdio streams over files\",\n";
    e += "    \"samples\": [";
    f1 = true;
    for (auto& m : all.samples) { e += (f1 ? "" : ", ") + json_str(m); f1 = false; }
    e += "]\n  },\n";
    e += "  \"assumptions\": [\"the simulated file system follows POSIX; a run is one process per simulated invocation, single threaded, as the program is\"],\n";
    e += fmt("  \"wall_s\": %.2f,\n  \"violations\": %d\n}\n", wall, nviol);
    mkdir((g_home + "/evidence").c_str(), 0755);
    spew(g_home + "/evidence/" + p.id + ".json", e);
    printf("%s %s: %ld cases (%zu distinct non-trivial), %ld simulated processes, %.1f s%s\n", p.id, tier.c_str(),
        all.evaluations, all.distinct.size(), all.st.processes, wall, all.timeout ? ", stopped by the time limit" : "");
    if (all.evaluations == 0 || (rc == 0 && all.distinct.size() < 2)) {
        fprintf(stderr, "qbsim: nothing was explored\n");
        return 3;
    }
    return rc;
}

static int cmd_replay(const std::string& file, bool verbose) {
    Scenario s;
    std::string err;
    if (!from_text(slurp(file), s, err)) {
        fprintf(stderr, "qbsim: %s: %s\n", file.c_str(), err.c_str());
        return 3;
    }
    Property const* p = find_prop(s.prop);
    if (!p) { fprintf(stderr, "qbsim: unknown property %s\n", s.prop.c_str()); return 3; }
    Stats st;
    Ctx a(&st);
    a.verbose = verbose;
    Violation v = p->evaluate(s, a);
    Ctx b(&st);
    b.verbose = verbose && getenv("QBSIM_BOTH");
    Violation w = p->evaluate(s, b);
    if (a.log.h != b.log.h || v.cls != w.cls) {
        fprintf(stderr, "qbsim: two executions of %s differ (%s %s; %s %s)\n", file.c_str(), v.cls.c_str(), v.detail.c_str(), w.cls.c_str(), w.detail.c_str());
        return 3;
    }
    printf("log %016llx, %ld executions\n", (unsigned long long)a.log.h, a.executions);
    if (!v) { printf("no violation\n"); return 0; }
    if (!s.get("class").empty() && s.get("class") != v.cls)
        printf("a different violation than recorded (%s)\n", s.get("class").c_str());
    printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.cls.c_str(), v.detail.c_str(), p->id, file.c_str());
    return 1;
}

int main(int argc, char** argv) {
    // same addresses in every run, where the system lets us
    if (!getenv("QBSIM_PERSONALITY")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) {
            setenv("QBSIM_PERSONALITY", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    entry_quickbook = quickbook_main;
    std::vector<std::string> pos;
    uint64_t seed = 1;
    int cases = -1, first = 0, nw = 8;
    double max_s = -1;
    bool verbose = false;
    if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), 0, 10);
    if (getenv("QBSIM_WORKERS")) nw = atoi(getenv("QBSIM_WORKERS"));
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") cases = atoi(val().c_str());
        else if (a == "--first") first = atoi(val().c_str());
        else if (a == "--workers") nw = atoi(val().c_str());
        else if (a == "--max-seconds") max_s = atof(val().c_str());
        else if (a == "--home") g_home = val();
        else if (a == "-v") verbose = true;
        else pos.push_back(a);
    }
    if (pos.empty()) { fprintf(stderr, "usage: qbsim check|replay|show|determinism|gen ...\n"); return 3; }
    std::string err;
    if (!load_corpus(g_home + "/corpus", err)) { fprintf(stderr, "qbsim: %s\n", err.c_str()); return 3; }
    mkdir((g_home + "/replays").c_str(), 0755);
    if (pos[0] == "check" && pos.size() >= 3) {
        Property const* p = find_prop(pos[1]);
        if (!p) { fprintf(stderr, "qbsim: unknown property %s\n", pos[1].c_str()); return 3; }
        bool thorough = pos[2] == "thorough";
        if (cases < 0) cases = thorough ? p->thorough_cases : p->quick_cases;
        if (max_s < 0) max_s = thorough ? 1500 : 300;
        return cmd_check(*p, pos[2], seed, first, cases, nw, max_s);
    }
    if (pos[0] == "replay" && pos.size() >= 2) return cmd_replay(pos[1], verbose);
    if (pos[0] == "show" && pos.size() >= 3) {
        Property const* p = find_prop(pos[1]);
        if (!p) return 3;
        Stats st;
        Ctx g(&st), c(&st);
        Scenario s = make_case(*p, seed, atoi(pos[2].c_str()), g);
        printf("%s\n", to_text(s).c_str());
        c.verbose = verbose;
        Violation v = p->evaluate(s, c);
        printf("%s %s nontrivial=%d\n", v.cls.c_str(), v.detail.c_str(), (int)c.nontrivial);
        return v ? 1 : 0;
    }
    if (pos[0] == "determinism" && pos.size() >= 3) {
        Property const* p = find_prop(pos[1]);
        if (!p) return 3;
        int n = atoi(pos[2].c_str());
        Hash total;
        for (int i = first; i < first + n; ++i) {
            uint64_t h[2];
            for (int k = 0; k < 2; ++k) {
                Stats st;
                Ctx c(&st);
                Scenario s = make_case(*p, seed, i, c);
                Violation v = p->evaluate(s, c);
                c.log.str(to_text(s));
                c.log.str(v.cls + v.detail);
                h[k] = c.log.h;
            }
            if (h[0] != h[1]) { printf("case %d differs\n", i); return 1; }
            total.u64(h[0]);
        }
        printf("%s seed %llu: %d cases, log %016llx\n", p->id, (unsigned long long)seed, n, (unsigned long long)total.h);
        return 0;
    }
    if (pos[0] == "survey" && pos.size() >= 3) { // every violation among N cases, without stopping
        Property const* p = find_prop(pos[1]);
        if (!p) return 3;
        int n = atoi(pos[2].c_str()), nw = 8, me = -1;
        for (int w = 0; w < nw; ++w) if (fork() == 0) { me = w; break; }
        if (me < 0) {
            int st = 0, rc = 0;
            while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("a worker failed\n"); rc = 2; }
            return rc;
        }
        std::vector<Known> known = load_known();
        for (int i = first + me; i < first + n; i += nw) {
            Stats st;
            Ctx c(&st);
            Scenario s = make_case(*p, seed, i, c);
            Violation v = p->evaluate(s, c);
            if (v && !is_known(known, p->id, v)) {
                std::string l = fmt("%d\t", i) + v.cls + "\t" + v.detail + "\n";
                ::write(1, l.data(), l.size());
            }
        }
        _exit(0);
    }
    if (pos[0] == "gen" && pos.size() >= 2) {
        // every generated project must convert cleanly
        int n = atoi(pos[1].c_str()), badn = 0;
        std::map<std::string, int> seen;
        for (int i = first; i < first + n; ++i) {
            Stats st;
            Ctx c(&st);
            Rng r(case_seed(seed, "gen", i));
            GenOpts o;
            Project p = gen_project(r, o);
            Scenario s;
            install(s, p);
            Exec x = execute(s, c);
            ProcResult const& q = x.r0();
            ++seen[q.status() + (p.corpus ? " corpus " : " ") + p.format];
            bool ok = (q.ok() || p.expect_error);
            std::set<std::string> paths;
            for (auto& f : s.files) if (!paths.insert(f.path).second && f.type == 'f') { ok = false; printf("twice: %s\n", f.path.c_str()); }
            if (ok && p.has_gold) {
                auto it = x.end().find(p.out);
                if (it == x.end().end() || it->second.data != p.gold) ok = false;
            }
            if (!ok && ++badn <= 25) {
                printf("case %d: %s %s\n", i, q.status().c_str(), q.err.c_str());
                // the line the first error is about
                size_t e = q.err.find(": error:");
                if (e != std::string::npos) {
                    size_t b = q.err.rfind('\n', e);
                    std::string pos = q.err.substr(b == std::string::npos ? 0 : b + 1, e - (b == std::string::npos ? 0 : b + 1));
                    size_t co = pos.rfind(':');
                    std::string fn = co == std::string::npos ? pos : pos.substr(0, co);
                    int ln = co == std::string::npos ? 1 : atoi(pos.c_str() + co + 1);
                    fn = lexnorm(fn[0] == '/' ? fn : p.run.cwd + "/" + fn);
                    for (auto& f : s.files)
                        if (f.path == fn) {
                            auto ls = split_lines(f.data);
                            for (int k = std::max(0, ln - 2); k < ln + 3 && k < (int)ls.size(); ++k) printf("  %5d %s\n", k + 1, ls[(size_t)k].c_str());
                            printf("  version %d\n", p.versions[f.path]);
                        }
                }
                if (verbose) printf("%s\n", to_text(s).c_str());
            }
        }
        for (auto& k : seen) printf("%6d %s\n", k.second, k.first.c_str());
        printf("%d of %d bad\n", badn, n);
        return badn ? 1 : 0;
    }
    if (pos[0] == "extract" && pos.size() >= 3) { // the files of a scenario, below a scratch directory
        Scenario s;
        std::string t = slurp(pos[1]);
        size_t at = t.find("qbsim 1\n");
        if (at != std::string::npos) t = t.substr(at);
        at = t.find("\nend\n");
        if (at != std::string::npos) t = t.substr(0, at + 5);
        if (!from_text(t, s, err)) { fprintf(stderr, "qbsim: %s\n", err.c_str()); return 3; }
        for (auto& f : s.files) {
            std::string d = pos[2] + f.path;
            for (size_t i = pos[2].size() + 1; i < d.size(); ++i)
                if (d[i] == '/') mkdir(d.substr(0, i).c_str(), 0755);
            if (f.type == 'd') mkdir(d.c_str(), 0755);
            else if (f.type == 'f') spew(d, f.data);
        }
        printf("cd %s%s\n", pos[2].c_str(), s.run0().cwd.c_str());
        for (auto& a : s.run0().args) printf("%s\n", quote(a).c_str());
        return 0;
    }
    fprintf(stderr, "qbsim: bad arguments\n");
    return 3;
}
