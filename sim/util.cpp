#include "util.hpp"
#include <fcntl.h>

namespace qs {

Tree tree_of(std::vector<FileSpec> const& v) {
    Tree t;
    for (auto& f : v) t[f.path] = f;
    return t;
}

Tree full_tree(std::vector<FileSpec> const& v) {
    Tree t = tree_of(v);
    for (auto& f : v) {
        std::string d = f.path;
        for (;;) {
            size_t k = d.rfind('/');
            if (k == std::string::npos || k == 0) break;
            d = d.substr(0, k);
            if (t.count(d)) continue;
            FileSpec e;
            e.path = d;
            e.type = 'd';
            t[d] = e;
        }
    }
    return t;
}

Exec execute(Scenario const& s, Ctx& ctx) {
    Exec x;
    // The reference run of a case is the same when the case is made and when
    // it is judged.
    bool keep = s.faults.empty() && !ctx.verbose && s.run0().alloc_fail_at == 0;
    uint64_t key = 0;
    if (keep) {
        Scenario t = s;
        t.opt.clear();
        t.prop = t.variant = "";
        t.seed = 0;
        Hash h;
        h.str(to_text(t));
        key = h.h;
        if (ctx.last && ctx.last_key == key && !s.run0().record_sites) {
            ctx.log.u64(ctx.last_log);
            return *std::static_pointer_cast<Exec>(ctx.last);
        }
    }
    Kernel K(s.k, ctx.stats);
    K.load(s.files);
    for (auto& g : s.groups)
        for (auto& p : g.procs) {
            Ino n;
            if (!K.fs.resolve("/", p.cwd, true, n)) continue;
            FileSpec d;
            d.type = 'd';
            d.mode = 0755;
            d.path = p.cwd;
            K.fs.put(d);
        }
    {
        Ino n;
        FileSpec d;
        d.type = 'd';
        d.mode = 01777;
        d.path = "/tmp";
        if (K.fs.resolve("/", d.path, true, n)) K.fs.put(d);
    }
    K.edits = s.edits;
    K.fs.settle();
    x.before = tree_of(K.fs.dump());
    std::vector<Step> steps = s.steps;
    if (steps.empty()) steps.push_back(Step());
    for (auto& st : steps) {
        if (st.kind == 'r') {
            if (st.arg < 0 || st.arg >= (int64_t)s.groups.size()) continue;
            size_t a = K.trace.size();
            x.t0.push_back(K.clock);
            x.results.push_back(K.run(s.groups[(size_t)st.arg], s.faults));
            x.t1.push_back(K.clock);
            x.span.push_back(std::make_pair(a, K.trace.size()));
        }
        else if (st.kind == 'e') {
            if (st.arg >= 0 && st.arg < (int64_t)s.edits.size()) K.apply(s.edits[(size_t)st.arg]);
            K.fs.settle();
        }
        else if (st.kind == 'p') {
            K.fs.power_loss((uint64_t)st.arg);
        }
        else if (st.kind == 'c') { // the clock moves on
            K.clock += st.arg;
        }
        x.after.push_back(tree_of(K.fs.dump()));
    }
    x.trace.swap(K.trace);
    for (auto& e : x.trace)
        if (e.injected) x.injected = true;
    for (auto& g : x.results)
        for (auto& r : g)
            if (r.alloc_failed) x.injected = true;
    if (ctx.verbose) {
        printf("%s", trace_str(x.trace).c_str());
        for (auto& g : x.results)
            for (auto& r : g)
                printf("-- %s calls=%d allocs=%lld\n-- out: %s\n-- err: %s\n", r.status().c_str(), r.calls,
                    (long long)r.allocs, r.out.c_str(), r.err.c_str());
    }
    ctx.note(K);
    if (keep) {
        ctx.last_key = key;
        ctx.last = std::make_shared<Exec>(x);
        ctx.last_log = K.log.h;
    }
    return x;
}

Scenario calm(Scenario s) {
    s.faults.clear();
    s.k.capacity = -1;
    for (auto& g : s.groups) {
        for (auto& p : g.procs) {
            p.read_max = p.write_max = 0;
            p.eintr = 0;
            p.alloc_fail_at = 0;
        }
    }
    return s;
}

std::vector<std::string> tree_diff(Tree const& a, Tree const& b, bool modes) {
    std::vector<std::string> r;
    for (auto& f : a) {
        auto i = b.find(f.first);
        if (i == b.end() || i->second.type != f.second.type || i->second.data != f.second.data ||
            (modes && i->second.mode != f.second.mode))
            r.push_back(f.first);
    }
    for (auto& f : b)
        if (!a.count(f.first)) r.push_back(f.first);
    std::sort(r.begin(), r.end());
    return r;
}

std::string first_difference(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t s = i > 30 ? i - 30 : 0;
    return fmt("at byte %zu (sizes %zu and %zu): ", i, a.size(), b.size()) + quote(a.substr(s, 80)) + " vs " +
           quote(b.substr(s, 80));
}

std::string describe_diff(Tree const& a, Tree const& b, std::vector<std::string> const& d) {
    std::string r;
    int n = 0;
    for (auto& p : d) {
        if (++n > 4) { r += fmt("; and %zu more", d.size() - 4); break; }
        auto i = a.find(p), j = b.find(p);
        if (n > 1) r += "; ";
        r += p + ": ";
        if (i == a.end()) r += "only in the second";
        else if (j == b.end()) r += "missing from the second";
        else if (i->second.type != j->second.type) r += "type differs";
        else if (i->second.data == j->second.data) r += "mode differs";
        else r += first_difference(i->second.data, j->second.data);
    }
    return r;
}

bool is_open_write(Ev const& e) {
    return e.op == OP_OPEN && ((e.flags & O_ACCMODE) != O_RDONLY || (e.flags & (O_CREAT | O_TRUNC)));
}
bool is_output_path(Scenario const& s, const std::string& path) {
    std::string out = s.get("out");
    if (!out.empty()) {
        if (path == out) return true;
        if (s.get("format") == "html" && starts_with(path, out + "/")) return true;
    }
    return (!s.get("deps").empty() && path == s.get("deps")) || (!s.get("locs").empty() && path == s.get("locs"));
}
std::string diagnostics(ProcResult const& r) { return r.err + r.out; }
static bool is_error_line(const std::string& l) {
    // file:line: error: ..., file(line): error: ..., file: error: ...
    return contains(l, ": error: ") || starts_with(l, "Error: ") || starts_with(l, "error: ");
}
int error_lines(ProcResult const& r) {
    int n = 0;
    for (auto& l : split_lines(diagnostics(r)))
        if (is_error_line(l)) ++n;
    return n;
}
int printed_error_count(ProcResult const& r) {
    for (auto& l : split_lines(diagnostics(r))) {
        size_t i = l.find("Error count: ");
        if (i != std::string::npos) return atoi(l.c_str() + i + 13);
    }
    return -1;
}
std::string short_diag(ProcResult const& r) {
    std::string d = diagnostics(r);
    if (d.size() > 300) d = d.substr(0, 300) + "...";
    return quote(d);
}
Violation died(ProcResult const& r) {
    if (r.heap_error == 4) return good(); // the arena of the simulation is finite
    if (r.heap_error)
        return bad(fmt("heap-error-%d", r.heap_error), "the heap was corrupted: " + r.status() + " " + short_diag(r));
    if (r.hung) return bad("hang", "the run does not end: " + r.status());
    if (r.sig) return bad(fmt("signal-%d", r.sig), "killed by a signal: " + r.status() + " " + short_diag(r));
    return good();
}

} // namespace qs
