// qbsim: where includes lead (P19), independence of the place (P20), lost
// diagnostics (P21), few descriptors (P22).
#include "model.hpp"
#include <cerrno>
#include <fcntl.h>

namespace qs {

namespace {
Tree outputs(Scenario const& s, Tree const& t) {
    Tree o;
    for (auto& f : t)
        if (f.second.type == 'f' && is_output_path(s, f.first)) o.insert(f);
    return o;
}
bool is_qbk(const std::string& p) { return ends_with(p, ".qbk") || ends_with(p, ".quickbook"); }

// ================================================================ P19
// Every QuickBook file says where its text starts and ends, and what it is called.
void put_marks(std::string& d, int n) {
    bool bom = starts_with(d, "\xef\xbb\xbf");
    std::string nl = contains(d, "\r\n") ? "\r\n" : "\n";
    std::string b = nl + nl + fmt("MARK+%d __FILENAME__ MEND", n) + nl + nl, e = nl + nl + fmt("MARK-%d __FILENAME__ MEND", n) + nl + nl;
    size_t at = bom ? 3 : 0;
    std::string top = d.substr(at, 12);
    bool head = starts_with(top, "[quickbook ");
    for (auto t : {"[article", "[book", "[library", "[chapter", "[part", "[appendix", "[preface", "[qandadiv", "[qandaset", "[reference", "[set"})
        if (starts_with(top, t)) head = true;
    if (head) {
        size_t i = d.find(nl + nl);
        at = i == std::string::npos ? d.size() : i + 2 * nl.size();
    }
    d = d.substr(0, at) + b + d.substr(at) + e;
}
Scenario p19_gen(Rng& r, Ctx&, int) {
    GenOpts o;
    o.corpus = false;
    o.corpus_pct = 0;
    o.size = (int)r.below(3);
    o.globby = r.chance(1, 4);
    o.fmt = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : 2;
    if (r.chance(1, 2)) o.min_version = 106;
    if (o.globby) o.min_version = 107;
    Scenario s;
    Project p = gen_project(r, o);
    while (p.out.empty()) p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    int n = 0;
    for (auto& f : s.files)
        if (f.type == 'f' && is_qbk(f.path) && !contains(f.data, "[template held")) put_marks(f.data, n++);
    s.variant = "layout";
    if (r.chance(1, 2)) {
        // then files come, go and move, and it is converted again
        s.variant = "history";
        Cmd c = parse_cmd(s.run0());
        std::vector<std::string> names, wanted;
        for (auto& f : s.files) {
            if (f.type != 'f') continue;
            if (is_qbk(f.path) && f.path != p.main) names.push_back(f.path);
            for (auto& l : split_lines(f.data)) {
                size_t in = l.find("[include"), sp = l.find(' ', in == std::string::npos ? 0 : in), e = l.find(']', sp == std::string::npos ? 0 : sp);
                if (in == std::string::npos || sp == std::string::npos || e == std::string::npos) continue;
                std::string q = l.substr(sp + 1, e - sp - 1);
                if (q.empty() || q[0] == '/' || contains(q, "\\") || glob_chars(q) || !is_qbk(q)) continue;
                wanted.push_back(lexnorm(dirname_of(f.path) + "/" + q));
                for (auto& i : c.incs) wanted.push_back(lexnorm(i + "/" + q));
            }
        }
        int m = r.range(1, 3);
        s.steps.push_back(Step());
        for (int i = 0; i < m; ++i) {
            Edit e;
            int k = (int)r.below(3);
            if (k == 0 && !wanted.empty()) {
                e.kind = 'w';
                e.path = r.pick(wanted);
                e.data = "appeared.\n";
                if (FileSpec* f = s.find(e.path)) e.data = f->data + "\nedited.\n";
                else put_marks(e.data, n++);
            }
            else if (k == 1 && !names.empty() && !wanted.empty()) {
                e.kind = 'r';
                e.path = r.pick(names);
                e.data = r.pick(wanted);
                FileSpec* f = s.find(e.path);
                if (e.data == e.path || e.data == p.main || !f || contains(f->data, "[template held")) continue;
            }
            else if (!names.empty()) {
                e.kind = 'd';
                e.path = r.pick(names);
            }
            else continue;
            if (e.path == p.main) continue;
            Step st;
            st.kind = 'e';
            st.arg = (int64_t)s.edits.size();
            s.edits.push_back(e);
            s.steps.push_back(st);
        }
        s.steps.push_back(Step());
    }
    if (r.chance(1, 4)) add_links(r, s, s.variant == "history");
    return s;
}
// white space is the layout's
std::string one_line(const std::string& m) {
    std::string o;
    for (char ch : m) {
        bool sp = ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r';
        if (!sp) o += ch;
        else if (!o.empty() && o[o.size() - 1] != ' ') o += ' ';
    }
    while (!o.empty() && o[o.size() - 1] == ' ') o.resize(o.size() - 1);
    return o;
}
// the marks in a text, in order: "+12 name"
std::vector<std::string> marks_in(const std::string& t) {
    std::vector<std::string> v;
    for (size_t i = t.find("MARK"); i != std::string::npos; i = t.find("MARK", i + 4)) {
        size_t e = t.find("MEND", i);
        if (e == std::string::npos || e - i > 400) { v.push_back(t.substr(i, 40)); continue; }
        v.push_back(one_line(t.substr(i + 4, e - i - 4)));
    }
    return v;
}
std::string xml_text(const std::string& s) {
    return replace_all(replace_all(replace_all(s, "&", "&amp;"), "<", "&lt;"), ">", "&gt;");
}
Violation p19_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    Cmd c = parse_cmd(s.run0());
    std::vector<Step> steps = s.steps;
    if (steps.empty()) steps.push_back(Step());
    size_t run = 0;
    for (size_t i = 0; i < steps.size(); ++i) {
        if (steps[i].kind != 'r') continue;
        ProcResult const& p = x.results[run][0];
        ++run;
        Violation v = died(p);
        if (v) return v;
        if (!p.exited) continue;
        Tree const& was = i ? x.after[i - 1] : x.before;
        Model m(was, c);
        m.run();
        if (m.odd) continue;
        if (!p.ok()) {
            bool other = false;
            for (auto& l : split_lines(diagnostics(p)))
                if (contains(l, "Paragraphs in lists aren't") || contains(l, "Template Redefinition")) other = true;
            // a file that was moved may now be read by the rules of another language version
            if (i > 0 && !contains(diagnostics(p), "Unable to find") && !contains(diagnostics(p), "Loading file")) other = true;
            // what cannot be found is the only thing wrong with these documents
            if (!m.error && !other) return bad("refused", "every reference can be found, but the run failed: " + short_diag(p));
            continue;
        }
        if (m.error) return bad("accepted", "a reference leads nowhere, but the run succeeded");
        std::vector<std::string> want, got;
        std::string decoys;
        for (auto& k : m.marks) {
            FileSpec const* f = follow(was, k.file);
            if (!f) continue;
            std::string mark = std::string("MARK") + k.kind;
            size_t a = f->data.find(mark);
            if (a == std::string::npos) continue;
            want.push_back(std::string(1, k.kind) + fmt("%d", atoi(f->data.c_str() + a + 5)) + " " + one_line(xml_text(k.name)));
        }
        std::vector<std::string> texts;
        for (auto& f : outputs(s, x.after[i])) {
            if (f.first == c.deps || f.first == c.locs) continue;
            if (s.get("format") == "html" && was.count(f.first)) {
                // was it written by this run?
                bool wrote = false;
                for (size_t e = x.span[run - 1].first; e < x.span[run - 1].second; ++e)
                    if (is_open_write(x.trace[e]) && x.trace[e].path == f.first) wrote = true;
                if (!wrote) continue;
            }
            texts.push_back(f.second.data);
        }
        for (auto& t : texts) for (auto& q : marks_in(t)) got.push_back(q);
        ctx.nontrivial = want.size() > 2;
        // pages follow the text of the page they belong to
        if (s.get("format") != "boostbook") { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
        for (size_t k = 0; k < std::max(want.size(), got.size()); ++k) {
            std::string a = k < want.size() ? want[k] : "(nothing more)", b = k < got.size() ? got[k] : "(nothing more)";
            if (a != b) return bad("content", "the output should go on with " + a + ", but has " + b);
        }
    }
    return good();
}

// ================================================================ P20
const char* path_options[] = {"--output-file", "--output-dir", "-I", "--include-path", "--image-location", "--output-deps",
    "--output-checked-locations", "--xinclude-base", "--css-path", "--boost-root-path", "--graphics-path"};
// applies fn to every path on the command line
template <class Fn>
void map_paths(std::vector<std::string>& a, Fn fn) {
    for (size_t i = 0; i < a.size(); ++i) {
        std::string o = a[i], v;
        bool eq = starts_with(o, "--") && contains(o, "=");
        if (eq) { v = o.substr(o.find('=') + 1); o = o.substr(0, o.find('=')); }
        bool path = false;
        for (auto p : path_options) if (o == p) path = true;
        if (path) {
            if (eq) a[i] = o + "=" + fn(v);
            else if (i + 1 < a.size()) { ++i; a[i] = fn(a[i]); }
            continue;
        }
        static const char* flags[] = {"--debug", "--no-pretty-print", "--no-self-linked-headers", "--ms-errors", "--strict", "--expect-errors", "--no-output"};
        bool flag = false;
        for (auto f : flags) if (o == f) flag = true;
        if (flag) continue;
        if (!o.empty() && o[0] == '-') { if (!eq) ++i; continue; }
        a[i] = fn(a[i]); // the input
    }
}
bool url(const std::string& p) { return contains(p, "://"); }
const std::string AWAY = "/mnt/elsewhere";
Scenario moved(Scenario s) {
    for (auto& f : s.files) {
        f.path = AWAY + f.path;
        if (f.type == 'l' && !f.data.empty() && f.data[0] == '/') f.data = AWAY + f.data;
        if (f.type != 'f') continue;
        for (auto d : {"[include ", "[import ", "[$", "[xinclude "}) f.data = replace_all(f.data, std::string(d) + "/", d + AWAY + "/");
        // [include:id /path]
        for (size_t i = f.data.find("[include:"); i != std::string::npos; i = f.data.find("[include:", i + 1)) {
            size_t sp = f.data.find(' ', i);
            if (sp != std::string::npos && sp + 1 < f.data.size() && f.data[sp + 1] == '/') f.data.insert(sp + 1, AWAY);
        }
    }
    for (auto& c : s.groups[0].procs) {
        c.cwd = AWAY + c.cwd;
        map_paths(c.args, [](const std::string& p) { return p.empty() || p[0] != '/' ? p : AWAY + p; });
    }
    for (auto k : {"main", "out", "deps", "locs"})
        if (!s.get(k).empty()) s.opt[k] = AWAY + s.get(k);
    return s;
}
Scenario from_elsewhere(Scenario s, const std::string& cwd) {
    RunCfg& c = s.run0();
    std::string was = c.cwd;
    map_paths(c.args, [&](const std::string& p) {
        if (p.empty() || url(p) || p[0] == '/') return p;
        std::string q = rel_from(cwd, lexnorm(was + "/" + p));
        return q.empty() ? std::string(".") : q;
    });
    c.cwd = cwd;
    FileSpec d;
    d.type = 'd';
    d.mode = 0755;
    d.path = cwd;
    bool have = false;
    for (auto& f : s.files) if (f.path == cwd || starts_with(f.path, cwd + "/")) have = true;
    if (!have) s.files.push_back(d);
    return s;
}
Scenario p20_gen(Rng& r, Ctx&, int) {
    GenOpts o;
    o.corpus_pct = 15;
    o.size = (int)r.below(3);
    o.debug = 1;
    if (r.chance(1, 2)) o.deps = 1;
    Scenario s;
    Project p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    if (r.chance(1, 4) && !p.corpus) add_mistakes(r, s, p, r.range(1, 2), 0);
    if (r.chance(1, 2)) s.variant = "moved";
    else {
        s.variant = "started-elsewhere";
        std::vector<std::string> dirs;
        for (auto& f : s.files) dirs.push_back(f.type == 'd' ? f.path : dirname_of(f.path));
        dirs.push_back("/");
        dirs.push_back("/home/user/build");
        std::string d = r.pick(dirs);
        s.opt["cwd"] = d;
    }
    return s;
}
std::string squeeze(const std::string& s) {
    std::string o;
    for (char c : s) if (c != ' ' && c != '\n') o += c;
    return o;
}
Violation p20_eval(Scenario const& s, Ctx& ctx) {
    Exec a = execute(s, ctx);
    bool mv = s.variant == "moved";
    Scenario t = mv ? moved(s) : from_elsewhere(s, s.get("cwd"));
    Exec b = execute(t, ctx);
    ProcResult const &p = a.r0(), &q = b.r0();
    Violation v = died(p);
    if (v) return v;
    v = died(q);
    if (v) return v;
    if (p.status() != q.status())
        return bad("status", std::string(mv ? "moving the project" : "starting elsewhere") + " changed how the run ends: " + p.status() + " " + short_diag(p) + " became " + q.status() + " " + short_diag(q));
    if (error_lines(p) != error_lines(q))
        return bad("diagnostics", std::string(mv ? "moving the project" : "starting elsewhere") + " changed the errors: " + short_diag(p) + " became " + short_diag(q));
    if (mv) {
        std::string d = replace_all(diagnostics(q), AWAY, "");
        if (d != diagnostics(p)) return bad("diagnostics", "moving the project changed the diagnostics: " + first_difference(diagnostics(p), d));
    }
    Tree x = outputs(s, a.end()), y0 = outputs(t, b.end()), y;
    std::string deps = s.get("deps"), locs = s.get("locs");
    for (auto f : y0) {
        std::string path = f.first;
        if (mv) {
            path = path.substr(AWAY.size());
            std::string d = replace_all(f.second.data, AWAY, "");
            auto i = x.find(path);
            if (d != f.second.data && i != x.end() && squeeze(i->second.data) == squeeze(d)) d = i->second.data; // lines are broken elsewhere
            f.second.data = d;
            f.second.path = path;
        }
        y[path] = f.second;
    }
    Cmd c = parse_cmd(s.run0());
    for (auto name : {deps, locs}) {
        if (name.empty() || mv) continue;
        auto i = x.find(name), j = y.find(name);
        if (i == x.end() || j == y.end()) continue;
        bool chk = name == locs || c.checked, esc = name == deps && c.escaped;
        Deps m = parse_deps(i->second.data, chk, esc, s.run0().cwd), n = parse_deps(j->second.data, chk, esc, t.run0().cwd);
        if (m.error.empty() && n.error.empty() && !(m == n))
            return bad("dependencies", "starting elsewhere changed what " + name + " lists: " + i->second.data + "became\n" + j->second.data);
        x.erase(i);
        y.erase(j);
    }
    ctx.nontrivial = !x.empty();
    auto d = tree_diff(x, y);
    if (!d.empty())
        return bad("output-" + role_of(s, d[0]), std::string(mv ? "moving the project" : "starting elsewhere") + " changed the output: " + describe_diff(x, y, d));
    return good();
}

// ================================================================ P21
Scenario p21_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 20;
    o.size = (int)r.below(2);
    Scenario s;
    Project p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    s.run0().eintr = 0;
    int l = 0;
    while (!l) {
        if (r.chance(1, 2)) l |= r.chance(2, 3) ? 1 : 4;
        if (r.chance(2, 3)) l |= r.chance(2, 3) ? 2 : 8;
    }
    s.opt["lost"] = fmt("%d", l);
    s.variant = "good";
    if (r.chance(1, 2) && !p.corpus) {
        add_mistakes(r, s, p, r.chance(1, 8) ? r.range(50, 200) : r.range(1, 3), 0);
        s.variant = "mistakes";
    }
    else if (r.chance(1, 3)) {
        Exec ref = execute(s, ctx);
        auto w = events(ref.trace, [&](Ev const& e) { return e.op == OP_WRITE || e.op == OP_READ || e.op == OP_OPEN || e.op == OP_CLOSE; });
        if (!w.empty()) {
            Fault f = at_event(ref.trace, r.pick(w));
            f.err = f.op == OP_WRITE ? ENOSPC : EIO;
            f.count = 0;
            s.faults.push_back(f);
            s.variant = "fault";
        }
    }
    if (r.chance(1, 6)) s.run0().args.push_back("--expect-errors");
    if (r.chance(1, 3)) add_stale_outputs(r, s);
    return s;
}
Violation p21_eval(Scenario const& s, Ctx& ctx) {
    Exec a = execute(s, ctx);
    Scenario t = s;
    int lost = atoi(s.get("lost").c_str());
    for (auto& c : t.groups[0].procs) c.lost = lost;
    Exec b = execute(t, ctx);
    ProcResult const &p = a.r0(), &q = b.r0();
    Violation v = died(p);
    if (v) return v;
    v = died(q);
    if (v) return v;
    ctx.nontrivial = !p.err.empty();
    ctx.stats->fault_kinds["lost-diagnostics"] += 1;
    if (p.status() != q.status())
        return bad("status", "nobody could read the diagnostics, and the run ends differently: " + p.status() + " " + short_diag(p) + " became " + q.status());
    auto d = tree_diff(a.end(), b.end());
    if (!d.empty()) return bad("output", "nobody could read the diagnostics, and the files differ: " + describe_diff(a.end(), b.end(), d));
    if (!(lost & 10) && p.err != q.err) return bad("stderr", "standard output was lost, and standard error differs: " + first_difference(p.err, q.err));
    if (!(lost & 5) && p.out != q.out) return bad("stdout", "standard error was lost, and standard output differs: " + first_difference(p.out, q.out));
    return good();
}

// ================================================================ P22
Scenario p22_gen(Rng& r, Ctx&, int) {
    GenOpts o;
    o.corpus_pct = 15;
    o.size = r.chance(1, 2) ? 2 : 1;
    o.many_pages = r.chance(1, 2);
    if (r.chance(1, 2)) o.deps = 1;
    Scenario s;
    Project p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    s.variant = p.corpus ? "corpus" : "generated";
    if (r.chance(1, 2) && !p.corpus) {
        // a chain of includes, deeper than the limit
        std::string dir = dirname_of(p.main);
        int n = r.range(5, 25);
        bool code = r.chance(1, 3);
        FileSpec* m = s.find(p.main);
        m->data += "\n\n[include chain0.qbk]\n\n";
        for (int i = 0; i < n; ++i) {
            FileSpec f;
            f.path = dir + fmt("/chain%d.qbk", i);
            f.data = fmt("link %d\n\n", i) + (i + 1 < n ? fmt("[include chain%d.qbk]\n\n", i + 1) : std::string()) + fmt("back in %d\n\n", i);
            if (code && p.version >= 106) f.data += fmt("[import chain%d.cpp]\n\n[chain_code%d]\n\n", i, i);
            s.files.push_back(f);
            if (code && p.version >= 106) {
                FileSpec g;
                g.path = dir + fmt("/chain%d.cpp", i);
                g.data = fmt("//[chain_code%d\nint x%d;\n//]\n", i, i);
                s.files.push_back(g);
            }
        }
        s.variant = "chain";
    }
    if (r.chance(1, 4) && !p.corpus) add_mistakes(r, s, p, r.range(1, 20), 0);
    s.opt["files"] = fmt("%d", r.range(3, 6));
    return s;
}
Violation p22_eval(Scenario const& s, Ctx& ctx) {
    Exec a = execute(s, ctx);
    Scenario t = s;
    for (auto& c : t.groups[0].procs) c.max_files = atoi(s.get("files").c_str());
    Exec b = execute(t, ctx);
    ProcResult const &p = a.r0(), &q = b.r0();
    Violation v = died(p);
    if (v) return v;
    v = died(q);
    if (v) return v;
    std::set<std::string> opened;
    for (auto& e : a.trace) if (e.op == OP_OPEN && !e.err) opened.insert(e.path);
    ctx.nontrivial = opened.size() > 3;
    std::string few = "with at most " + s.get("files") + " files open at a time ";
    if (p.status() != q.status()) return bad("status", few + "the run ends differently: " + p.status() + " became " + q.status() + " " + short_diag(q));
    if (diagnostics(p) != diagnostics(q)) return bad("diagnostics", few + "the diagnostics differ: " + first_difference(diagnostics(p), diagnostics(q)));
    auto d = tree_diff(a.end(), b.end());
    if (!d.empty()) return bad("output", few + "the files differ: " + describe_diff(a.end(), b.end(), d));
    return good();
}
} // namespace

void add_more_props(std::vector<Property>& v) {
    v.push_back(Property{"P19",
        "A case is a seeded layout of sources and search directories (shadowed, missing and globbed files, odd names, files of templates), converted once, or "
        "twice with files created, moved or deleted in between; non-trivial when at least one file was included.",
        p19_gen, p19_eval, 36000, 120000});
    v.push_back(Property{"P20",
        "A case is a seeded project converted where it is, and again with the whole tree moved or from another working directory; non-trivial when it has an output.",
        p20_gen, p20_eval, 28000, 60000});
    v.push_back(Property{"P21",
        "A case is a seeded project, good, with mistakes or with a failing call, converted with standard output and error kept and with one or both full or "
        "without a reader; non-trivial when there was something to say.",
        p21_gen, p21_eval, 36000, 60000});
    v.push_back(Property{"P22",
        "A case is a seeded project with many files, pages or a deep chain of includes, converted with and without a limit of three to six open files; "
        "non-trivial when more than three files were opened.",
        p22_gen, p22_eval, 14000, 60000});
}

} // namespace qs
