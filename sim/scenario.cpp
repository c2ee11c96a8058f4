#include "scenario.hpp"
#include <cstdlib>

namespace qs {

std::string fault_str(Fault const& f) {
    return fmt("run=%d proc=%d op=%s path=%s nth=%d count=%d act=%s err=%s param=%lld", f.run, f.proc,
        op_name(f.op), quote(f.path).c_str(), f.nth, f.count, act_name(f.act), errno_name(f.err).c_str(),
        (long long)f.param);
}

std::string to_text(Scenario const& s) {
    std::string r = "qbsim 1\n";
    r += "prop " + s.prop + "\nvariant " + quote(s.variant) + "\n";
    r += fmt("seed %llu\n", (unsigned long long)s.seed);
    r += fmt("kernel clock=%lld tick=%lld dir_seed=%llu dt_unknown=%d ino_base=%llu capacity=%lld\n",
        (long long)s.k.clock, (long long)s.k.tick, (unsigned long long)s.k.dir_seed, (int)s.k.dt_unknown,
        (unsigned long long)s.k.ino_base, (long long)s.k.capacity);
    for (auto& o : s.opt) r += "opt " + quote(o.first) + " " + quote(o.second) + "\n";
    for (auto& f : s.files)
        r += fmt("file %c %o ", f.type, f.mode) + quote(f.path) + " " + quote(f.data) + "\n";
    for (auto& e : s.edits)
        r += fmt("edit %c %o ", e.kind, e.mode) + quote(e.path) + " " + quote(e.data) + "\n";
    for (auto& f : s.faults) r += "fault " + fault_str(f) + "\n";
    for (auto& g : s.groups) {
        r += fmt("group max_calls=%d\n", g.max_calls);
        for (auto& p : g.procs) {
            r += fmt("proc cwd=%s tz=%s read_max=%lld write_max=%lld eintr=%d chunk_seed=%llu heap_mode=%d "
                     "heap_seed=%llu alloc_fail_at=%lld alloc_fail_count=%lld lost=%d max_files=%d ambient=%llu env_seed=%llu entry=%s\n",
                quote(p.cwd).c_str(), quote(p.tz).c_str(), (long long)p.read_max, (long long)p.write_max,
                p.eintr, (unsigned long long)p.chunk_seed, p.heap_mode, (unsigned long long)p.heap_seed,
                (long long)p.alloc_fail_at, (long long)p.alloc_fail_count, p.lost, p.max_files, (unsigned long long)p.ambient,
                (unsigned long long)p.env_seed, quote(p.entry).c_str());
            for (auto& a : p.args) r += "arg " + quote(a) + "\n";
            for (auto& e : p.env) r += "env " + quote(e.first) + " " + quote(e.second) + "\n";
        }
        for (auto& w : g.switches) r += fmt("switch %d %d\n", w.at, w.to);
    }
    for (auto& st : s.steps) r += fmt("step %c %lld\n", st.kind, (long long)st.arg);
    r += "end\n";
    return r;
}

static bool kv(const char*& p, std::string& k, std::string& v) {
    while (*p == ' ') ++p;
    if (!*p) return false;
    k.clear();
    v.clear();
    while (*p && *p != '=' && *p != ' ') k += *p++;
    if (*p != '=') return false;
    ++p;
    if (*p == '"') return unquote(p, v);
    while (*p && *p != ' ') v += *p++;
    return true;
}

static int act_value(const std::string& n) {
    for (int i = 0; i < A_COUNT; ++i)
        if (n == act_name(i)) return i;
    return -1;
}

bool from_text(const std::string& t, Scenario& s, std::string& error) {
    s = Scenario();
    int ln = 0;
    bool ended = false;
    for (auto& line : split_lines(t)) {
        ++ln;
        if (line.empty() || line[0] == '#') continue;
        size_t sp = line.find(' ');
        std::string w = line.substr(0, sp);
        const char* p = sp == std::string::npos ? "" : line.c_str() + sp + 1;
        std::string k, v;
        bool ok = true;
        auto num = [&]() { return (long long)strtoll(v.c_str(), 0, 10); };
        auto unum = [&]() { return (unsigned long long)strtoull(v.c_str(), 0, 10); };
        if (w == "qbsim") ok = std::string(p) == "1";
        else if (w == "prop") s.prop = p;
        else if (w == "variant") ok = unquote(p, s.variant);
        else if (w == "seed") s.seed = strtoull(p, 0, 10);
        else if (w == "kernel") {
            while (kv(p, k, v)) {
                if (k == "clock") s.k.clock = num();
                else if (k == "tick") s.k.tick = num();
                else if (k == "dir_seed") s.k.dir_seed = unum();
                else if (k == "dt_unknown") s.k.dt_unknown = num() != 0;
                else if (k == "ino_base") s.k.ino_base = unum();
                else if (k == "capacity") s.k.capacity = num();
                else ok = false;
            }
        }
        else if (w == "opt") {
            ok = unquote(p, k) && unquote(p, v);
            if (ok) s.opt[k] = v;
        }
        else if (w == "file" || w == "edit") {
            char c = *p;
            char* q = 0;
            int mode = (int)strtol(p + 1, &q, 8);
            const char* r = q;
            ok = unquote(r, k) && unquote(r, v);
            if (w == "file") {
                FileSpec f;
                f.type = c; f.mode = mode; f.path = k; f.data = v;
                s.files.push_back(f);
            }
            else {
                Edit e;
                e.kind = c; e.mode = mode; e.path = k; e.data = v;
                s.edits.push_back(e);
            }
        }
        else if (w == "fault") {
            Fault f;
            while (kv(p, k, v)) {
                if (k == "run") f.run = (int)num();
                else if (k == "proc") f.proc = (int)num();
                else if (k == "op") { f.op = op_value(v.c_str()); ok = ok && f.op >= 0; }
                else if (k == "path") f.path = v;
                else if (k == "nth") f.nth = (int)num();
                else if (k == "count") f.count = (int)num();
                else if (k == "act") { f.act = act_value(v); ok = ok && f.act >= 0; }
                else if (k == "err") f.err = errno_value(v);
                else if (k == "param") f.param = num();
                else ok = false;
            }
            s.faults.push_back(f);
        }
        else if (w == "group") {
            Group g;
            while (kv(p, k, v)) {
                if (k == "max_calls") g.max_calls = (int)num();
                else ok = false;
            }
            s.groups.push_back(g);
        }
        else if (w == "proc") {
            if (s.groups.empty()) { error = "proc outside group"; return false; }
            RunCfg c;
            while (kv(p, k, v)) {
                if (k == "cwd") c.cwd = v;
                else if (k == "tz") c.tz = v;
                else if (k == "read_max") c.read_max = num();
                else if (k == "write_max") c.write_max = num();
                else if (k == "eintr") c.eintr = (int)num();
                else if (k == "chunk_seed") c.chunk_seed = unum();
                else if (k == "heap_mode") c.heap_mode = (int)num();
                else if (k == "lost") c.lost = (int)num();
                else if (k == "max_files") c.max_files = (int)num();
                else if (k == "heap_seed") c.heap_seed = unum();
                else if (k == "alloc_fail_at") c.alloc_fail_at = num();
                else if (k == "alloc_fail_count") c.alloc_fail_count = num();
                else if (k == "ambient") c.ambient = unum();
                else if (k == "env_seed") c.env_seed = unum();
                else if (k == "entry") c.entry = v;
                else ok = false;
            }
            s.groups.back().procs.push_back(c);
        }
        else if (w == "arg" || w == "env") {
            if (s.groups.empty() || s.groups.back().procs.empty()) { error = "arg outside proc"; return false; }
            RunCfg& c = s.groups.back().procs.back();
            ok = unquote(p, k);
            if (w == "arg") c.args.push_back(k);
            else {
                ok = ok && unquote(p, v);
                c.env.push_back(std::make_pair(k, v));
            }
        }
        else if (w == "switch") {
            Switch x;
            ok = sscanf(p, "%d %d", &x.at, &x.to) == 2;
            if (!s.groups.empty()) s.groups.back().switches.push_back(x);
        }
        else if (w == "step") {
            Step x;
            long long a = 0;
            ok = sscanf(p, "%c %lld", &x.kind, &a) == 2;
            x.arg = a;
            s.steps.push_back(x);
        }
        else if (w == "end") ended = true;
        else ok = false;
        if (!ok) { error = fmt("line %d: cannot read: %s", ln, line.c_str()); return false; }
    }
    if (!ended) { error = "incomplete file"; return false; }
    return true;
}

} // namespace qs
