// qbsim: what a run says about its failures: where (P14), all of them (P15), and
// through its exit status (P16).
#include "model.hpp"
#include <cerrno>
#include <fcntl.h>
#include <cstdlib>

namespace qs {

// ---------------------------------------------------------------- messages
struct Msg {
    std::string file; // absolute, empty when none
    int line = -1;
    std::string what; // unable load image other
    std::string name; // the path the message is about
    std::string text;
};
static bool parse_pos(const std::string& pos, bool ms, const std::string& cwd, Msg& m) {
    std::string f = pos;
    if (ms) {
        if (!f.empty() && f[f.size() - 1] == ')') {
            size_t i = f.rfind('(');
            if (i == std::string::npos) return false;
            m.line = atoi(f.c_str() + i + 1);
            f = f.substr(0, i);
        }
    }
    else {
        size_t i = f.rfind(':');
        if (i != std::string::npos && i + 1 < f.size() && f.find_first_not_of("0123456789", i + 1) == std::string::npos) {
            m.line = atoi(f.c_str() + i + 1);
            f = f.substr(0, i);
        }
    }
    m.file = lexnorm(!f.empty() && f[0] == '/' ? f : cwd + "/" + f);
    return true;
}
static std::vector<Msg> messages(ProcResult const& p, RunCfg const& c) {
    std::vector<Msg> v;
    bool ms = false;
    for (auto& a : c.args) if (a == "--ms-errors") ms = true;
    for (auto& l : split_lines(p.err + p.out)) {
        Msg m;
        m.text = l;
        size_t e = l.find(": error: ");
        std::string rest;
        if (e != std::string::npos) {
            parse_pos(l.substr(0, e), ms, c.cwd, m);
            rest = l.substr(e + 9);
        }
        else if (starts_with(l, "Error: ")) rest = l.substr(7);
        else continue;
        m.what = "other";
        if (starts_with(rest, "Unable to find file: ")) { m.what = "unable"; m.name = rest.substr(21); }
        else if (starts_with(rest, "Loading file ")) {
            m.what = "load";
            size_t i = rest.rfind(": ");
            m.name = rest.substr(13, i == std::string::npos ? i : i - 13);
            m.name = lexnorm(!m.name.empty() && m.name[0] == '/' ? m.name : c.cwd + "/" + m.name);
        }
        else if (starts_with(rest, "Empty path argument")) { m.what = "empty"; m.name = rest.substr(19); }
        else if (starts_with(rest, "Unable to read image file: ")) {
            m.what = "image";
            m.name = rest.substr(27);
            m.name = lexnorm(!m.name.empty() && m.name[0] == '/' ? m.name : c.cwd + "/" + m.name);
        }
        v.push_back(m);
    }
    return v;
}
static std::string msg_str(const std::string& file, int line, const std::string& what, const std::string& name) {
    return file + ":" + fmt("%d", line) + " " + what + " " + name;
}

// ---------------------------------------------------------------- projects with several references that fail
static Scenario failing_refs(Rng& r, Ctx& ctx) {
    GenOpts o;
    o.corpus = false;
    o.debug = 1;
    o.size = r.chance(1, 4) ? 2 : 1;
    if (r.chance(1, 3)) o.deps = 1;
    Scenario s;
    Project p;
    for (int tries = 0; tries < 20; ++tries) {
        s = Scenario();
        p = gen_project(r, o);
        install(s, p);
        Cmd c = parse_cmd(s.run0());
        Tree t = full_tree(s.files);
        Model m(t, c);
        m.run();
        if (!m.odd && !m.error && m.refs.size() > 1) break;
    }
    gen_noise(r, s.k, s.run0());
    bool ms = false;
    for (auto& a : s.run0().args) if (a == "--ms-errors") ms = true;
    if (!ms && r.chance(1, 3)) s.run0().args.push_back("--ms-errors");
    // references that lead nowhere, anywhere
    int extra = r.chance(1, 10) ? r.range(8, 30) : (int)r.below(4);
    std::vector<size_t> qbk;
    for (size_t i = 0; i < s.files.size(); ++i)
        if (s.files[i].type == 'f' && (ends_with(s.files[i].path, ".qbk") || ends_with(s.files[i].path, ".quickbook")) && !starts_with(s.files[i].data, "DECOY") && !contains(s.files[i].data, "[template held"))
            qbk.push_back(i);
    for (int i = 0; i < extra; ++i) {
        FileSpec& f = s.files[r.chance(1, 2) && s.find(p.main) ? (size_t)(s.find(p.main) - &s.files[0]) : r.pick(qbk)];
        std::string nl = contains(f.data, "\r\n") ? "\r\n" : "\n";
        static const char* names[] = {"nowhere%d.qbk", "no/where%d.quickbook", "../up%d.qbk", "/absent/abs%d.qbk", "./n%d.qbk", "caf\xc3\xa9%d.qbk"};
        std::string line = std::string(r.chance(1, 4) ? "[import " : "[include ") + fmt(names[r.below(6)], i) + "]";
        // at the end, or before another directive
        size_t at = f.data.size();
        size_t inc = f.data.find(nl + "[include");
        if (inc != std::string::npos && r.chance(1, 2)) at = inc + nl.size();
        if (p.versions.count(f.path) && p.versions[f.path] >= 107 && r.chance(1, 6))
            line = fmt("[template empty%d[]]", i) + nl + nl + "[include [empty" + fmt("%d", i) + "]]";
        f.data.insert(at, (at == f.data.size() ? nl + nl : "") + line + nl + nl);
    }
    if (r.chance(1, 3)) {
        // characters that look like the end of a line elsewhere
        static const char* odd[] = {"page\fbreak", "\f", "tab\vtab words", "next\xc2\x85line", "line\xe2\x80\xa8separator", "a\fb\fc", "words\f\nmore"};
        for (int i = r.range(1, 3); i > 0; --i) insert_piece(r, s.files[r.pick(qbk)], std::string(odd[r.below(7)]) + "\n\n");
    }
    // files that are not there, or cannot be read
    Cmd c = parse_cmd(s.run0());
    Tree t0 = full_tree(s.files);
    Model m(t0, c);
    m.run();
    std::map<std::string, int> uses;
    for (auto& q : m.refs) for (auto& t : q.targets) ++uses[t];
    std::vector<std::string> targets;
    for (auto& u : uses) if (u.first != p.main) targets.push_back(u.first);
    int n = targets.empty() ? 0 : r.range(extra ? 0 : 1, 3);
    std::string unreadable;
    static const int oerr[] = {EACCES, EIO, EMFILE, ENFILE, ESTALE, EPERM};
    static const int rerr[] = {EIO, ESTALE, ENOMEM};
    std::set<std::string> hit;
    // sometimes everything that one reference leads to
    std::vector<std::string> order;
    for (int i = 0; i < n; ++i) order.push_back(r.pick(targets));
    int all_of = 0;
    if (r.chance(1, 3)) {
        std::vector<size_t> many;
        for (size_t i = 0; i < m.refs.size(); ++i) if (m.refs[i].targets.size() > 1) many.push_back(i);
        if (!many.empty()) {
            Ref const& q = m.refs[r.pick(many)];
            order.insert(order.end(), q.targets.begin(), q.targets.end());
            all_of = (int)q.targets.size();
        }
    }
    n = (int)order.size();
    for (int i = 0; i < n; ++i) {
        std::string t = order[(size_t)i];
        if (!hit.insert(t).second) continue;
        Fault f;
        f.path = t;
        f.count = 0;
        switch (i >= n - all_of ? 1 + r.below(2) * 2 : r.below(5)) {
        case 0: { // gone before the run
            std::vector<FileSpec> keep;
            for (auto& x : s.files) if (x.path != t) keep.push_back(x);
            s.files = keep;
            break;
        }
        case 1:
            f.op = OP_OPEN;
            f.err = oerr[r.below(6)];
            s.faults.push_back(f);
            unreadable += t + "\n";
            break;
        case 2: {
            FileSpec* x = s.find(t);
            if (!x || x->data.empty()) break;
            f.op = OP_READ;
            f.err = rerr[r.below(3)];
            s.faults.push_back(f);
            unreadable += t + "\n";
            break;
        }
        case 3: {
            FileSpec* x = s.find(t);
            if (!x || ends_with(t, ".svg")) break;
            x->data = std::string(r.chance(1, 2) ? "\xff\xfe" : "\xfe\xff") + x->data;
            unreadable += t + "\n";
            break;
        }
        default: // vanishes between the look and the opening
            if (uses[t] != 1) break;
            f.op = OP_OPEN;
            f.count = 1;
            f.act = A_EDIT;
            f.param = (int64_t)s.edits.size();
            Edit e;
            e.kind = 'd';
            e.path = t;
            s.edits.push_back(e);
            s.faults.push_back(f);
            unreadable += t + "\n";
        }
    }
    s.opt["unreadable"] = unreadable;
    s.variant = ms || std::find(s.run0().args.begin(), s.run0().args.end(), "--ms-errors") != s.run0().args.end() ? "ms-style" : "gnu-style";
    return s;
}

struct Expected {
    std::multiset<std::string> all; // msg_str of each
    bool odd = false, main_unreadable = false;
    size_t lines = 0;
};
static Expected expected(Scenario const& s, Exec const& x) {
    Expected w;
    Cmd c = parse_cmd(s.run0());
    Model m(x.before, c);
    for (auto& u : split_lines(s.get("unreadable"))) {
        if (u.empty()) continue;
        // still so after minimisation?
        bool so = false;
        for (auto& f : s.faults) if (f.path == u) so = true;
        auto b = x.before.find(u);
        if (b != x.before.end() && (starts_with(b->second.data, "\xff\xfe") || starts_with(b->second.data, "\xfe\xff"))) so = true;
        if (so) m.unreadable.insert(u);
    }
    m.run();
    w.odd = m.odd;
    std::map<std::string, int> uses;
    for (auto& q : m.refs) for (auto& t : q.targets) ++uses[t];
    for (auto& f : s.faults) if (f.act == A_EDIT && uses[f.path] > 1) w.odd = true;
    for (auto& f : s.faults) if (f.path == c.main) w.odd = true;
    for (auto& q : m.refs) {
        if (q.kind == 's') {
            for (auto& t : q.targets) if (m.unreadable.count(t)) w.all.insert(msg_str(q.file, q.line, "image", t));
            continue;
        }
        if (q.kind == 'e') { w.all.insert(msg_str(q.file, q.line, "empty", "")); continue; }
        if (!q.glob && q.targets.empty()) w.all.insert(msg_str(q.file, q.line, "unable", q.path));
        for (auto& t : q.targets) if (m.unreadable.count(t) && q.kind != 'n') w.all.insert(msg_str(q.file, q.line, "load", t));
    }
    return w;
}

// ================================================================ P14
static Scenario p14_gen(Rng& r, Ctx& ctx, int) { return failing_refs(r, ctx); }
static Violation p14_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    ProcResult const& p = x.r0();
    Violation v = died(p);
    if (v) return v;
    Expected w = expected(s, x);
    if (w.odd) return good();
    ctx.nontrivial = !w.all.empty();
    std::set<std::string> places;
    std::multimap<std::string, std::string> by_name;
    for (auto& e : w.all) {
        size_t i = e.find(' ', e.rfind(':') == std::string::npos ? 0 : 0);
        (void)i;
        places.insert(e);
    }
    for (auto& m : messages(p, s.run0())) {
        if (m.what == "other") {
            // any located message names an existing source and a line of it
            if (m.file.empty() || m.line < 0) continue;
            auto f = x.before.find(m.file);
            if (f == x.before.end() || f->second.type != 'f') return bad("no-such-place", "the message refers to a file that does not exist: " + quote(m.text));
            std::string d = replace_all(replace_all(f->second.data, "\r\n", "\n"), "\r", "\n");
            int lines = 1;
            for (char ch : d) if (ch == '\n') ++lines;
            if (m.line < 1 || m.line > lines) return bad("no-such-line", "the message refers to a line that does not exist: " + quote(m.text));
            continue;
        }
        std::string is = msg_str(m.file, m.line, m.what, m.name);
        if (!places.count(is)) {
            std::string near;
            for (auto& e : w.all) near += " " + quote(e);
            return bad("wrong-place-" + m.what, "the message " + quote(m.text) + " is not at a reference that failed (" + quote(is) + "); these failed:" + near);
        }
    }
    return good();
}

// ================================================================ P15
static Scenario p15_gen(Rng& r, Ctx& ctx, int) { return failing_refs(r, ctx); }
static Violation p15_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    ProcResult const& p = x.r0();
    Violation v = died(p);
    if (v) return v;
    Expected w = expected(s, x);
    if (w.odd) return good();
    ctx.nontrivial = w.all.size() > 1;
    std::multiset<std::string> got;
    int errors = 0;
    for (auto& m : messages(p, s.run0())) {
        if (m.what != "other") got.insert(m.what + " " + m.name);
        if (!m.file.empty()) ++errors;
    }
    std::multiset<std::string> want;
    for (auto& e : w.all) {
        // "file:line what name": names hold no space followed by one of the kinds
        static const char* kinds[] = {" unable ", " load ", " image ", " empty "};
        for (auto k : kinds) {
            size_t i = e.find(k);
            if (i != std::string::npos) { want.insert(e.substr(i + 1)); break; }
        }
    }
    for (auto& e : want)
        if (got.count(e) < want.count(e))
            return bad("unreported", fmt("%zu of %zu failures of \"", want.count(e) - got.count(e), want.count(e)) + e + "\" are not reported: " + short_diag(p));
    for (auto& e : got)
        if (got.count(e) > want.count(e))
            return bad("invented", "\"" + e + "\" is reported more often than it failed: " + short_diag(p));
    if (!w.all.empty() && p.ok()) return bad("exit-0", "references fail, and the exit status is 0: " + short_diag(p));
    int n = printed_error_count(p);
    if (!w.all.empty() && n != errors)
        return bad("count", fmt("the run reports %d errors and counts %d: ", errors, n) + short_diag(p));
    return good();
}

// ================================================================ P16
static void many_errors(Rng& r, std::string& d, int n, int v, const std::string& dir, std::vector<FileSpec>& extra) {
    static const int cheap[] = {0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 24, 26, 27};
    int k = cheap[r.below(sizeof cheap / sizeof *cheap)];
    bool mixed = r.chance(1, 3);
    for (int i = 0; i < n; ++i) {
        if (mixed) k = n < 10 ? -1 : cheap[r.below(sizeof cheap / sizeof *cheap)];
        d += mistake(r, v, i, dir, extra, k);
    }
}
static Scenario p16_gen(Rng& r, Ctx& ctx, int) {
    Scenario s;
    int kind = (int)r.below(10);
    GenOpts o;
    o.debug = r.chance(4, 5) ? 1 : 0;
    if (kind < 4) { // documents with and without errors
        o.corpus_pct = 30;
        if (r.chance(1, 4)) o.deps = 1;
        Project p = gen_project(r, o);
        install(s, p);
        if (FileSpec* f = s.find(s.get("main"))) {
            static const int ns[] = {0, 0, 0, 1, 1, 2, 3, 100, 255, 256, 257, 512};
            int n = ns[r.below(12)];
            if (n < 10 && r.chance(3, 4)) add_mistakes(r, s, p, n, r.chance(1, 3) ? r.range(1, 2) : 0);
            else {
                std::vector<FileSpec> extra;
                f->data += "\n\n";
                many_errors(r, f->data, n, p.version, dirname_of(p.main), extra);
                for (auto& e : extra) if (!s.find(e.path)) s.files.push_back(e);
            }
            if (n && n < 10 && r.chance(1, 4)) add_info_oddity(r, s, p);
            if (r.chance(1, 6)) s.run0().args.push_back("--strict");
            if (r.chance(1, 6)) s.run0().args.push_back("-D" + odd_define(r, r.chance(1, 3)));
            if (r.chance(1, 10)) insert_piece(r, *s.find(p.main), oddity(r, p.version, 0, 30));
            s.variant = n == 0 ? "as-it-is" : n < 255 ? "errors" : "many-errors";
        }
    }
    else if (kind < 6) { // pages that cannot be written
        o.corpus = false;
        o.fmt = 2;
        o.size = 0;
        o.includes = false;
        Project p = gen_project(r, o);
        while (p.out.empty()) p = gen_project(r, o);
        install(s, p);
        FileSpec* f = s.find(p.main);
        static const int ns[] = {1, 3, 30, 254, 255, 256, 257, 511};
        int n = ns[r.chance(1, 2) ? r.below(3) : r.below(8)];
        std::string nl = "\n";
        for (int i = 0; i < n; ++i) f->data += nl + nl + fmt("[section:pg%d p%d]", i, i) + nl + nl + "x" + nl + nl + "[endsect]" + nl;
        if (r.chance(2, 3)) {
            static const int ops[] = {OP_OPEN, OP_WRITE, OP_CLOSE};
            int op = ops[r.below(3)];
            // everything written under the output directory fails
            Exec ref = execute(s, ctx);
            std::vector<size_t> v = events(ref.trace, [&](Ev const& e) {
                return e.op == op && starts_with(e.path, p.out + "/") && (op != OP_OPEN || is_open_write(e));
            });
            size_t want = r.chance(1, 2) ? v.size() : std::min<size_t>(v.size(), r.chance(1, 2) ? 256 : 1 + r.below(300));
            std::set<std::string> done;
            for (size_t i = 0; i < want; ++i) {
                if (!done.insert(ref.trace[v[i]].path).second) continue;
                Fault q = at_event(ref.trace, v[i]);
                q.err = EACCES;
                if (op == OP_WRITE) q.err = EIO;
                if (op == OP_CLOSE) q.act = A_CLOSELOSE, q.err = EIO, q.param = 0;
                q.count = 0;
                q.nth = 1;
                s.faults.push_back(q);
            }
        }
        s.variant = "pages";
    }
    else if (kind < 8) { // unusable command lines
        o.corpus = false;
        o.size = 0;
        install(s, gen_project(r, o));
        auto& a = s.run0().args;
        auto drop = [&](const char* n) {
            for (size_t i = 0; i < a.size();) {
                if (a[i] == n && i + 1 < a.size()) a.erase(a.begin() + (long)i, a.begin() + (long)i + 2);
                else if (starts_with(a[i], std::string(n) + "=")) a.erase(a.begin() + (long)i);
                else ++i;
            }
        };
        switch (r.below(13)) {
        case 0: drop("--output-format"); a.push_back("--output-format=pdf"); break;
        case 1: drop("--output-deps-format"); a.push_back("--output-deps-format=chequed"); drop("--output-deps"); a.push_back("--output-deps=d.txt"); break;
        case 2: a.push_back("--no-such-option"); break;
        case 3: drop("--output-file"); drop("--output-dir"); drop("--output-format"); a.push_back("--output-file=no/such/dir/x.xml"); break;
        case 4: drop("--output-file"); drop("--output-dir"); drop("--output-format"); a.push_back("--output-format=html"); a.push_back("--output-dir=no/such/dir/pages"); break;
        case 5: drop("--output-file"); drop("--output-dir"); drop("--output-format"); a.push_back("--output-format=html"); a.push_back("--output-file=x.html"); break;
        case 6: drop("--output-file"); drop("--output-dir"); drop("--output-format"); a.push_back("--output-dir=pages"); break;
        case 7: drop("--xinclude-base"); a.push_back("--xinclude-base=no/such/dir"); break;
        case 8: { std::vector<FileSpec> k; for (auto& f : s.files) if (f.path != s.get("main")) k.push_back(f); s.files = k; break; }
        case 9: { if (FileSpec* f = s.find(s.get("main"))) { f->type = 'd'; f->data = ""; f->mode = 0755; } break; }
        case 10: a.push_back("-D"); a.push_back(odd_define(r, true)); break;
        case 11: a.push_back("second.qbk"); break;
        default: drop("--indent"); a.push_back("--indent=abc"); break;
        }
        s.variant = "command-line";
    }
    else { // sources or outputs that fail
        o.corpus_pct = 20;
        if (r.chance(1, 3)) o.deps = 1;
        install(s, gen_project(r, o));
        Exec ref = execute(s, ctx);
        auto v = events(ref.trace, [&](Ev const& e) {
            return (e.op == OP_OPEN || e.op == OP_READ || e.op == OP_WRITE || e.op == OP_CLOSE || e.op == OP_MKDIR) && !e.path.empty();
        });
        if (!v.empty()) {
            Fault f = at_event(ref.trace, r.pick(v));
            f.err = r.chance(1, 2) ? EIO : EACCES;
            if (f.op == OP_CLOSE) f.act = A_CLOSELOSE, f.err = EIO;
            f.count = 0;
            s.faults.push_back(f);
        }
        s.variant = "faults";
    }
    if (r.chance(1, 2)) add_stale_outputs(r, s);
    gen_noise(r, s.k, s.run0());
    if (s.run0().read_max && s.run0().read_max < 64) s.run0().read_max = 64;
    if (s.run0().write_max && s.run0().write_max < 64) s.run0().write_max = 64;
    return s;
}
static Violation p16_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    ProcResult const& p = x.r0();
    Violation v = died(p);
    if (v) return v;
    if (!p.exited) return good();
    ctx.nontrivial = true;
    int errors = error_lines(p);
    bool usage = contains(diagnostics(p), "No filename given");
    ctx.stats->probe(p.code == 0 ? "exit-0" : errors > 255 ? "exit-nonzero-256-errors" : "exit-nonzero");
    if (p.code == 0 && errors)
        return bad("exit-0", fmt("%d errors are reported, and the exit status is 0: ", errors) + short_diag(p));
    if (p.code != 0 && !errors && !usage) {
        if (diagnostics(p).empty() || !contains(diagnostics(p), "rror"))
            return bad("silent", "nonzero exit status without an error message: " + p.status() + " " + short_diag(p));
    }
    // what is counted is what is reported
    int counted = printed_error_count(p);
    if (counted >= 0 && s.faults.empty() && counted != errors - 1)
        return bad("count", fmt("%d errors are reported, and %d are counted: ", errors - 1, counted) + short_diag(p));
    if (p.code == 0 && s.variant == "command-line" && x.trace.size() == 0) return bad("exit-0", "nothing was done");
    if (s.variant == "command-line" && p.code != 0 && contains(diagnostics(p), "Error: ") && !contains(diagnostics(p), ": error: ") &&
        !contains(diagnostics(p), "command line definition") && !contains(diagnostics(p), "Post Processing Failed.")) {
        auto d = tree_diff(x.before, x.end());
        if (!d.empty()) return bad("half-done", "the command line was rejected, but something was written: " + describe_diff(x.before, x.end(), d));
    }
    // --expect-errors turns the verdict round
    Scenario q = s;
    q.run0().args.push_back("--expect-errors");
    Exec y = execute(q, ctx);
    ProcResult const& e = y.r0();
    v = died(e);
    if (v) return v;
    if (!e.exited) return good();
    bool none = contains(diagnostics(e), "No errors detected for --expect-errors.");
    if (p.code == 0 && (e.code == 0 || !none))
        return bad("expect-passes", "a run without errors is accepted by --expect-errors: " + e.status() + " " + short_diag(e));
    if (p.code != 0 && none) return bad("expect-denies", "errors are reported, and --expect-errors says there are none: " + short_diag(e));
    bool document = printed_error_count(p) > 0;
    if (document && e.code != 0)
        return bad("expect-fails", "the document has errors, but with --expect-errors the exit status is " + fmt("%d", e.code) + ": " + short_diag(e));
    return good();
}

void add_diag_props(std::vector<Property>& v) {
    v.push_back(Property{"P14",
        "A case is a generated project in which several references fail (missing, unreadable, vanishing between look and "
        "open, failing reads, wrong encodings) at places known to the generator; non-trivial when at least one fails.",
        p14_gen, p14_eval, 72000, 160000});
    v.push_back(Property{"P15",
        "A case is a generated project in which several references fail, as in P14; non-trivial when at least two fail.",
        p15_gen, p15_eval, 72000, 160000});
    v.push_back(Property{"P16",
        "A case is a run with a seeded number of errors (0 to 512) in its document, unwritable pages (up to all of 511), an "
        "unusable command line, or a fault, with and without --expect-errors; every case compares both exit statuses.",
        p16_gen, p16_eval, 25000, 60000});
}

} // namespace qs
