// qbsim: dependency tracking: what the dependency file records (P04) and what a
// build that trusts it gets (P05).
#include "model.hpp"
#include <cerrno>
#include <fcntl.h>

namespace qs {

static std::string deps_text(Deps const& d, bool checked) {
    std::string s;
    if (!checked) { for (auto& p : d.plain) s += p + " "; return s; }
    for (auto& f : d.files) s += std::string(1, f.second) + f.first + " ";
    for (auto& g : d.globs) { s += "g" + g.first + "( "; for (auto& m : g.second) s += m + " "; s += ") "; }
    return s;
}
static std::string deps_difference(Deps const& want, Deps const& got, bool checked) {
    if (!checked) {
        for (auto& p : want.plain) if (!got.plain.count(p)) return p + " is missing from the list";
        for (auto& p : got.plain) if (!want.plain.count(p)) return p + " is listed, but nothing refers to it";
        return "";
    }
    for (auto& f : want.files) {
        auto i = got.files.find(f.first);
        if (i == got.files.end()) return f.first + " (" + f.second + ") is missing from the list";
        if (i->second != f.second) return f.first + " is listed as " + i->second + " instead of " + f.second;
    }
    for (auto& f : got.files) if (!want.files.count(f.first)) return f.first + " is listed, but nothing refers to it";
    for (auto& g : want.globs) {
        auto i = got.globs.find(g.first);
        if (i == got.globs.end()) return "the pattern " + g.first + " is missing from the list";
        for (auto& m : g.second) if (!i->second.count(m)) return m + ", which " + g.first + " matches, is missing from the list";
        for (auto& m : i->second) if (!g.second.count(m)) return m + " is listed for " + g.first + ", which it does not match";
    }
    for (auto& g : got.globs) if (!want.globs.count(g.first)) return "the pattern " + g.first + " is listed, but nothing uses it";
    return "";
}

// ================================================================ P04
static void odd_glob_names(Rng& r, Scenario& s) {
    // files with names that need escaping, where a pattern of the project finds them
    for (size_t i = 0; i < s.files.size(); ++i) {
        FileSpec const& f = s.files[i];
        size_t g = f.path.rfind("/gl");
        if (f.type != 'f' || g == std::string::npos || f.path.find('/', g + 1) != f.path.rfind('/') || !ends_with(f.path, ".qbk")) continue;
        static const char* odd[] = {"n\nl", "c\rr", "b\\s", "d\x7fl", "a\x01z", "q\x0fr", "e\x1b", "x\ty", "f\x08\x0b\x0cg", "m\x07n"};
        FileSpec n;
        n.path = dirname_of(f.path) + "/" + odd[r.below(10)] + ".qbk";
        n.data = "odd name\n";
        if (!s.find(n.path)) s.files.push_back(n);
        return;
    }
}
static Scenario p04_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 12;
    o.deps = r.chance(2, 3) ? 2 : 1;
    o.size = (int)r.below(3);
    if (r.chance(1, 5)) { o.globby = true; o.min_version = 107; }
    Scenario s;
    Project p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    s.variant = "found";
    if (!p.corpus) {
        Cmd c = parse_cmd(s.run0());
        s.opt["model"] = "1";
        if (c.escaped && r.chance(2, 3)) odd_glob_names(r, s);
        if (r.chance(1, 3)) {
            // some of what is referred to is not there (any more)
            int n = r.range(1, 2);
            for (int i = 0; i < n; ++i) {
                std::vector<size_t> v;
                for (size_t k = 0; k < s.files.size(); ++k)
                    if (s.files[k].type == 'f' && s.files[k].path != p.main) v.push_back(k);
                if (v.empty()) break;
                s.files.erase(s.files.begin() + (long)r.pick(v));
            }
            s.variant = "missing";
        }
        else if (r.chance(1, 6)) {
            FileSpec* f = s.find(p.main);
            f->data += "\n\n[endsect]\n\n";
            s.variant = "source-error";
        }
        else if (r.chance(1, 4)) {
            // a file comes or goes while the run looks at it more than once
            if (FileSpec* f = s.find(p.main)) {
                // refer to some of the files twice
                std::string more;
                std::string here = dirname_of(p.main);
                for (auto& l : split_lines(replace_all(f->data, "\r\n", "\n")))
                    if ((starts_with(l, "[include ") || starts_with(l, "[import ")) && r.chance(2, 3)) more += "\n\n" + l + "\n\n";
                for (auto& x : s.files)
                    if (ends_with(x.path, ".svg") && r.chance(1, 2)) more += "\n\n[$images/" + basename_of(x.path) + "]\n\n";
                f->data += more;
            }
            Exec ref = execute(s, ctx);
            std::vector<size_t> v = events(ref.trace, [&](Ev const& e) {
                return (e.op == OP_STAT || e.op == OP_OPEN) && e.path != p.main && !is_output_path(s, e.path) &&
                       ((s.find(e.path) && s.find(e.path)->type == 'f') || (!s.find(e.path) && e.op == OP_STAT && e.err == ENOENT && ends_with(e.path, ".qbk")));
            });
            std::map<std::string, int> looks;
            for (auto i : v) ++looks[ref.trace[i].path];
            std::vector<size_t> w;
            for (auto i : v) if (looks[ref.trace[i].path] > 2) w.push_back(i);
            if (w.empty()) w = v;
            if (!w.empty()) {
                Fault f = at_event(ref.trace, r.pick(w));
                f.count = 1;
                f.act = A_EDIT;
                f.param = (int64_t)s.edits.size();
                Edit e;
                e.path = f.path;
                if (s.find(f.path)) e.kind = 'd';
                else { e.kind = 'w'; e.data = "appeared.\n"; }
                s.edits.push_back(e);
                s.faults.push_back(f);
                s.variant = "changing";
                s.opt["model"] = "";
            }
        }
    }
    if (r.chance(1, 3)) add_stale_outputs(r, s);
    if (!p.corpus && s.faults.empty() && r.chance(1, 4)) add_links(r, s, false);
    return s;
}
static Violation p04_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    ProcResult const& p = x.r0();
    Violation v = died(p);
    if (v) return v;
    if (!p.exited) return good();
    Cmd c = parse_cmd(s.run0());
    auto di = x.end().find(c.deps);
    // a document with errors
    bool wrong = contains(diagnostics(p), "Error count: ");
    if (di == x.end().end() || di->second.type != 'f') {
        if (x.before.count(c.main) && x.before.find(c.main)->second.type == 'f' && (p.ok() || wrong))
            return bad("not-written", "the dependency file was not written");
        return good();
    }
    if (contains(di->second.data, "STALE")) {
        if (p.ok() || wrong) return bad("not-written", "the dependency file of an earlier run was left in place");
        return good();
    }
    Deps got = parse_deps(di->second.data, c.checked, c.escaped, s.run0().cwd);
    if (!got.error.empty() && (c.escaped || s.variant == "found"))
        return bad("format", "the dependency file cannot be read back: " + got.error + " in " + quote(di->second.data));
    for (auto& b : got.both) {
        // only a file that came or went during the run can be both
        bool moved = false;
        if (!s.faults.empty())
            for (auto& e : s.edits) if (e.path == b) moved = true;
        if (!moved) return bad("format", "listed both as there and as missing: " + b + " in " + quote(di->second.data));
    }
    if (!c.locs.empty()) {
        auto li = x.end().find(c.locs);
        if (li == x.end().end()) return bad("not-written", "the locations file was not written");
        Deps l = parse_deps(li->second.data, true, false, s.run0().cwd);
        if (c.checked && l.error.empty() && got.error.empty() && !(l == got))
            return bad("locations", "the locations file and the dependency file disagree: " + deps_difference(got, l, true));
    }
    // what it opened, and what was there
    std::set<std::string> listed = got.plain;
    if (!s.faults.empty()) {
        std::set<std::string> edited;
        for (auto& e : s.edits) edited.insert(e.path);
        for (auto& f : got.files) if (f.second == '+') listed.insert(f.first);
        for (auto& g : got.globs) listed.insert(g.second.begin(), g.second.end());
        for (auto& e : x.trace) {
            if (e.op != OP_OPEN || is_open_write(e) || e.err || (e.flags & O_DIRECTORY) || is_output_path(s, e.path)) continue;
            if (!follow(x.before, e.path) && !edited.count(e.path)) continue;
            FileSpec const* b = follow(x.before, e.path);
            if (b && b->type != 'f') continue;
            if (edited.count(e.path)) ctx.nontrivial = true;
            if (!listed.count(e.path))
                return bad("unlisted-read", "the run read " + e.path + ", which the dependency file does not list as found");
        }
        for (auto& f : got.files)
            if ((f.second == '+') != (follow(x.before, f.first) != 0) && !edited.count(f.first) && !is_output_path(s, f.first))
                return bad("wrong-sign", f.first + " is listed as " + f.second + ", which is wrong");
        return good();
    }
    for (auto& f : got.files) {
        bool was = follow(x.before, f.first) != 0;
        if ((f.second == '+') != was && !is_output_path(s, f.first))
            return bad("wrong-sign", f.first + " is listed as " + f.second + (was ? ", but it was there" : ", but it was not there"));
        if (f.second == '+') listed.insert(f.first);
    }
    for (auto& g : got.globs) listed.insert(g.second.begin(), g.second.end());
    for (auto& f : listed)
        if (!follow(x.before, f)) return bad("wrong-sign", f + " is listed as found, but it was not there");
    int read = 0;
    for (auto& e : x.trace) {
        if (e.op != OP_OPEN || is_open_write(e) || e.err || (e.flags & O_DIRECTORY)) continue;
        FileSpec const* b = follow(x.before, e.path);
        if (!b || b->type != 'f' || is_output_path(s, e.path)) continue;
        ++read;
        if (!listed.count(e.path)) return bad("unlisted-read", "the run read " + e.path + ", which the dependency file does not list");
    }
    ctx.nontrivial = read > 1;
    if (s.get("model") != "1") return good();
    // every error is a reference that leads nowhere, or the model does not apply
    if (!p.ok()) {
        for (auto& l : split_lines(diagnostics(p)))
            if (contains(l, "rror") && !contains(l, "Unable to find file") && !contains(l, "Error count") && s.variant != "source-error")
                return good();
    }
    Model m(x.before, c);
    m.run();
    if (m.odd) return good();
    if (got.error.empty()) {
        std::string diff = deps_difference(m.d, got, c.checked);
        if (!diff.empty()) return bad("wrong-list", "the dependency file is wrong: " + diff);
    }
    if (m.error && p.ok()) return bad("missing-accepted", "a reference leads nowhere, but the exit status is 0");
    if (!m.error && s.variant != "source-error" && !p.ok()) return good();
    return good();
}

// ================================================================ P05
// What a build tool does with a checked dependency file: it rebuilds when a
// listed file changed, appeared or vanished, or a pattern matches other files.
static bool stale(Deps const& d, Tree const& was, Tree const& is) {
    auto same = [&](const std::string& p) {
        FileSpec const *a = follow(was, p), *b = follow(is, p);
        if (!a != !b) return false;
        if (!a) return true;
        return a->type == b->type && a->data == b->data && a->mode == b->mode;
    };
    for (auto& f : d.files) {
        if (!same(f.first)) return true;
        if ((follow(is, f.first) != 0) != (f.second == '+')) return true;
    }
    for (auto& g : d.globs) {
        for (auto& m : g.second) if (!same(m)) return true;
        if (glob_tree(is, g.first) != g.second) return true;
    }
    return false;
}
static Scenario p05_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus = r.chance(1, 10);
    o.corpus_pct = 100;
    o.deps = 2;
    o.debug = 1;
    o.size = (int)r.below(3);
    if (r.chance(1, 5)) { o.globby = true; o.min_version = 107; }
    Scenario s;
    Project p = gen_project(r, o);
    while (p.out.empty()) p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    s.run0().eintr = 0;
    bool broken = r.chance(1, 4);
    if (broken) {
        // the first build fails on a missing file
        std::vector<size_t> v;
        for (size_t k = 0; k < s.files.size(); ++k)
            if (s.files[k].type == 'f' && s.files[k].path != p.main && !is_output_path(s, s.files[k].path)) v.push_back(k);
        if (!v.empty()) {
            Edit e;
            e.kind = 'w';
            size_t k = r.pick(v);
            e.path = s.files[k].path;
            e.data = s.files[k].data;
            s.files.erase(s.files.begin() + (long)k);
            s.edits.push_back(e); // it may come back
        }
    }
    if (!p.corpus && r.chance(1, 5) && p.versions[p.main] >= 106 && s.find(p.main)) {
        // places that do not exist yet
        if (r.chance(1, 2)) {
            s.run0().args.push_back("-I");
            s.run0().args.push_back(r.chance(1, 2) ? "/later" : "later/inc");
        }
        static const char* what[] = {"[include later_dir/*.qbk]", "[include later_dir/one.qbk]", "[import later_dir/*.qbk]", "[$images/later.svg]"};
        insert_piece(r, *s.find(p.main), std::string(what[r.below(p.versions[p.main] >= 107 ? 4 : 1) + (p.versions[p.main] >= 107 ? 0 : 1)]) + "\n\n");
    }
    Cmd c = parse_cmd(s.run0());
    std::vector<std::string> names, dirs;
    for (auto& f : s.files) {
        if (f.type == 'f') names.push_back(f.path);
        dirs.push_back(f.type == 'd' ? f.path : dirname_of(f.path));
    }
    // what the sources refer to, wherever it might be found
    std::vector<std::string> wanted;
    for (auto& f : s.files) {
        if (f.type != 'f') continue;
        for (auto& l : split_lines(f.data)) {
            size_t in = l.find("[include");
            if (in == std::string::npos) in = l.find("[import");
            if (in == std::string::npos) continue;
            size_t sp = l.find(' ', in), e = l.find(']', sp == std::string::npos ? 0 : sp);
            if (sp == std::string::npos || e == std::string::npos) continue;
            std::string q = l.substr(sp + 1, e - sp - 1);
            if (q.empty() || q[0] == '/' || contains(q, "\\")) continue;
            if (glob_chars(q)) {
                // where a pattern finds it, or looks as if it did
                std::string leaf = basename_of(q), gd = q.size() > leaf.size() ? q.substr(0, q.size() - leaf.size() - 1) : "";
                if (!ends_with(q, ".qbk") || glob_chars(gd)) continue;
                int many = contains(q, "later_dir") ? 0 : 1;
                if (!many) wanted.push_back(lexnorm(dirname_of(f.path) + "/" + gd + "/new.qbk"));
                for (auto& d : dirs) if (many) wanted.push_back(lexnorm(d + "/" + gd + "/new.qbk"));
                for (auto& d : c.incs) wanted.push_back(lexnorm(d + "/" + gd + "/new.qbk"));
                continue;
            }
            wanted.push_back(lexnorm(dirname_of(f.path) + "/" + q));
            for (auto& i : c.incs) wanted.push_back(lexnorm(i + "/" + q));
        }
    }
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Edit e;
        switch (r.below(10)) {
        case 0: case 1: // somebody edits a file
            e.path = r.pick(names);
            { FileSpec* f = s.find(e.path); e.data = (f ? f->data : "") + "\n\nedited text.\n"; }
            e.kind = r.chance(1, 2) ? 'w' : 'a';
            break;
        case 2: case 3: // a file appears where an include might find it first
            if (wanted.empty()) continue;
            e.path = r.pick(wanted);
            e.data = "appeared here.\n";
            break;
        case 4: // a file goes away
            e.path = r.pick(names);
            e.kind = 'd';
            if (e.path == p.main) continue;
            break;
        case 5: case 6: { // a file appears next to others
            static const char* nm[] = {"g1x.qbk", "new.qbk", "a.qbk", "zz.txt", "note.md", "pic1.svg", "inc1.qbk"};
            e.path = lexnorm(r.pick(dirs) + "/" + nm[r.below(7)]);
            e.data = "new text.\n";
            break;
        }
        case 7: // moved
            e.kind = 'r';
            e.path = r.pick(names);
            if (e.path == p.main) continue;
            e.data = dirname_of(e.path) + "/moved" + (r.chance(1, 2) ? ".qbk" : ".bak");
            break;
        case 8: // an image is redrawn
            e.path = lexnorm(c.image_dir + fmt("/images/pic%d.svg", r.range(1, 40)));
            e.data = fmt("<svg width=\"%d\" height=\"%d\"></svg>", r.range(1, 99), r.range(1, 99));
            for (auto& q : names) if (ends_with(q, ".svg")) e.path = q;
            break;
        default: // a whole directory goes away or is put in place
            if (r.chance(1, 2)) { e.kind = 'm'; e.path = lexnorm(r.pick(dirs) + "/gl1"); }
            else { e.kind = 'd'; e.path = r.pick(dirs); if (starts_with(p.main, e.path + "/") || starts_with(s.run0().cwd, e.path) || e.path == "/" ||
                                          (!p.out.empty() && starts_with(p.out + "/", e.path + "/"))) continue; }
        }
        if (is_output_path(s, e.path)) continue;
        s.edits.push_back(e);
    }
    Step st;
    s.steps.push_back(st);
    for (size_t i = 0; i < s.edits.size(); ++i) {
        if (broken && i == 0 && r.chance(1, 2)) continue;
        st.kind = 'e';
        st.arg = (int64_t)i;
        s.steps.push_back(st);
        if (r.chance(1, 3) || i + 1 == s.edits.size()) {
            if (r.chance(1, 3)) { st.kind = 'c'; st.arg = (int64_t)r.below(100000) * 1000000000ll; s.steps.push_back(st); }
            st.kind = 'r';
            st.arg = 0;
            s.steps.push_back(st);
        }
    }
    if (r.chance(1, 5)) add_links(r, s, true);
    s.variant = broken ? "first-build-broken" : "first-build-good";
    return s;
}
static Tree outputs_of(Scenario const& s, Tree const& t) {
    Tree o;
    for (auto& f : t) if (is_output_path(s, f.first)) o[f.first] = f.second;
    return o;
}
static Violation p05_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    Cmd c = parse_cmd(s.run0());
    // builds: after which step
    std::vector<size_t> at;
    std::vector<Step> steps = s.steps;
    if (steps.empty()) steps.push_back(Step());
    for (size_t i = 0; i < steps.size(); ++i) if (steps[i].kind == 'r') at.push_back(i);
    if (at.size() != x.results.size()) return good();
    for (size_t b = 0; b + 1 < at.size(); ++b) {
        ProcResult const& p = x.results[b][0];
        ProcResult const& q = x.results[b + 1][0];
        Violation v = died(p);
        if (v) return v;
        v = died(q);
        if (v) return v;
        Tree const& was = x.after[at[b]];
        Tree const& is = x.after[at[b + 1] - 1];
        auto di = was.find(c.deps);
        // the command line still means what it meant
        if (!c.xbase.empty() && was.count(c.xbase) != is.count(c.xbase)) continue;
        if (di == was.end() || di->second.type != 'f') continue;
        // a run that gave up before it wrote the file leaves the old one
        bool wrote = false;
        for (size_t k = x.span[b].first; k < x.span[b].second; ++k)
            if (is_open_write(x.trace[k]) && x.trace[k].path == c.deps) wrote = true;
        if (!wrote) continue;
        Deps d = parse_deps(di->second.data, true, c.escaped, s.run0().cwd);
        if (!d.error.empty() || !d.both.empty()) {
            if (c.escaped) return bad("format", d.error.empty() ? "listed both as there and as missing: " + *d.both.begin() : d.error);
            continue;
        }
        bool changed = false;
        for (auto& f : tree_diff(was, is)) if (!is_output_path(s, f)) changed = true;
        bool st = stale(d, was, is);
        ctx.stats->probe(!changed ? "nothing-changed" : st ? "rebuild-needed" : "rebuild-not-needed");
        if (changed) ctx.nontrivial = true;
        if (st) continue;
        if (p.status() != q.status())
            return bad("missed-status", "nothing the dependency file records changed, but a rebuild ends differently: " + p.status() + " " +
                                            short_diag(p) + " then " + q.status() + " " + short_diag(q));
        if (p.ok()) {
            Tree a = outputs_of(s, was), e = outputs_of(s, x.after[at[b + 1]]);
            auto df = tree_diff(a, e);
            if (!df.empty())
                return bad("missed-change", "nothing the dependency file records changed, but a rebuild writes something else: " + describe_diff(a, e, df));
        }
    }
    return good();
}

void add_dep_props(std::vector<Property>& v) {
    v.push_back(Property{"P04",
        "A case is a seeded project (files found next to the includer, on the include path, by glob, shadowed or missing) "
        "converted with a dependency file in one of the formats; non-trivial when more than one source was read.",
        p04_gen, p04_eval, 36000, 160000});
    v.push_back(Property{"P05",
        "A case is a seeded history: build, edits by another party (files edited, created on the search path, deleted, moved, "
        "directories removed), build again, up to three times; non-trivial when the tree changed between two builds.",
        p05_gen, p05_eval, 18000, 100000});
}

} // namespace qs
