// qbsim: what a conversion may depend on: determinism (P06), one point in time
// (P07), one version of each source (P08), line ends and encodings (P13).
#include "model.hpp"
#include <cerrno>
#include <fcntl.h>
#include <ctime>
#include <cstdlib>

namespace qs {

static bool is_source_name(const std::string& p) {
    static const char* no[] = {".svg", ".png", ".jpg", ".xml", ".html", ".out", ".gold", ".css", ".deps", ".txt.gold"};
    for (auto e : no) if (ends_with(p, e)) return false;
    return true;
}
static bool is_stale(Scenario const& s, FileSpec const& f) {
    if (starts_with(f.data, "STALE ")) return true;
    for (auto& p : split_lines(s.get("stale"))) if (p == f.path) return true;
    return false;
}
// outputs of earlier runs over nearly the same sources
static void add_earlier_outputs(Rng& r, Scenario& s, Ctx& ctx) {
    Scenario q = calm(s);
    q.steps.clear();
    if (r.chance(1, 3)) {
        // that run laid its output out in the other way
        std::vector<std::string>& a = q.run0().args;
        auto i = std::find(a.begin(), a.end(), "--no-pretty-print");
        if (i != a.end()) a.erase(i);
        else a.insert(a.begin(), "--no-pretty-print");
    }
    Exec ref = execute(q, ctx);
    std::string list;
    for (auto& f : ref.end()) {
        if (f.second.type != 'f' || !is_output_path(s, f.first) || ref.before.count(f.first) || s.find(f.first)) continue;
        if (r.chance(1, 5)) continue;
        FileSpec x = f.second;
        std::string& d = x.data;
        switch (r.below(6)) {
        case 0: break;
        case 1: case 2: // of the same size
            for (int n = r.range(1, 3); n > 0 && !d.empty(); --n) d[r.below(d.size())] ^= (char)r.range(1, 31);
            break;
        case 3: d = d.substr(0, r.below(d.size() + 1)); break;
        case 4: d += d.substr(0, 1 + r.below(200)); break;
        default: d = ""; break;
        }
        s.files.push_back(x);
        list += x.path + "\n";
    }
    s.opt["stale"] = list;
}
static uint64_t files_hash(Scenario const& s) {
    Hash h;
    for (auto& f : s.files)
        if (!is_stale(s, f)) { h.str(f.path); h.str(f.data); }
    for (auto& a : s.run0().args) h.str(a);
    return h.h;
}
static bool plain_noise(Scenario const& s) { return s.faults.empty() && s.k.capacity < 0; }
// outputs as a map: requested output files, whatever was there before
static Tree outputs(Scenario const& s, Tree const& t) {
    Tree o;
    for (auto& f : t)
        if (f.second.type == 'f' && is_output_path(s, f.first)) o.insert(f);
    return o;
}
static Violation same_outcome(Scenario const& s, Exec const& a, Exec const& b, const char* what) {
    ProcResult const &p = a.r0(), &q = b.r0();
    if (p.status() != q.status())
        return bad("status", std::string(what) + " changed how the run ends: " + p.status() + " " + short_diag(p) + " became " + q.status() + " " + short_diag(q));
    if (diagnostics(p) != diagnostics(q))
        return bad("diagnostics", std::string(what) + " changed the diagnostics: " + first_difference(diagnostics(p), diagnostics(q)));
    Tree x = outputs(s, a.end()), y = outputs(s, b.end());
    auto d = tree_diff(x, y);
    if (!d.empty()) return bad("output-" + role_of(s, d[0]), std::string(what) + " changed the output: " + describe_diff(x, y, d));
    return good();
}

// ================================================================ P06
// The same project, options and (without --debug) time, in the plainest world there is.
static Scenario plain_world(Scenario s) {
    s = calm(s);
    s.k.dir_seed = 0;
    s.k.dt_unknown = false;
    s.k.ino_base = 100;
    for (auto& p : s.groups[0].procs) {
        p.env.clear();
        p.env_seed = 0;
        p.heap_mode = 0;
        p.heap_seed = 2;
        p.ambient = 1;
        p.chunk_seed = 0;
        if (s.get("debug") == "1") p.tz = "UTC0";
    }
    if (s.get("debug") == "1") s.k.clock = KernelCfg().clock;
    std::vector<FileSpec> keep;
    for (auto& f : s.files)
        if (!is_stale(s, f) && !starts_with(f.path, "/other/")) keep.push_back(f);
    s.files = keep;
    s.steps.clear();
    return s;
}
static Scenario p06_gen(Rng& r, Ctx& ctx, int index) {
    GenOpts o;
    o.corpus_pct = 30;
    o.size = r.chance(1, 4) ? 2 : 1;
    o.many_pages = r.chance(1, 4);
    if (r.chance(1, 2)) o.deps = 1;
    if (r.chance(1, 6)) { o.globby = true; o.min_version = 107; }
    o.bulk = r.chance(1, 16);
    Scenario s;
    Project p;
    // every document of the regression corpus comes up once at least
    if (index % 8 == 0) {
        GenOpts oc;
        p = corpus_project(r, index / 8, oc);
    }
    else p = gen_project(r, o);
    install(s, p);
    s.variant = p.corpus ? "corpus" : "generated";
    gen_noise(r, s.k, s.run0());
    if (r.chance(1, 6)) add_docbook(r, s, p, true);
    if (o.bulk && s.run0().write_max) s.run0().write_max += 200;
    if (o.bulk && s.run0().read_max) s.run0().read_max += 200;
    s.k.tick = 0; // without --debug both runs happen in the same second
    if (p.debug) {
        s.k.clock = (int64_t)r.below(4000000000ull) * 1000000000ll;
        static const char* tz[] = {"UTC0", "<+0530>-5:30", "<-11>11", "<+14>-14", "EST5EDT,M3.2.0,M11.1.0"};
        s.run0().tz = tz[r.below(5)];
        s.k.tick = (int64_t)r.below(1000000);
    }
    // links first: with a file missing, the earlier runs would have had other pages
    if (!p.corpus && r.chance(1, 8)) add_links(r, s, r.chance(1, 2));
    if (r.chance(1, 3)) add_earlier_outputs(r, s, ctx);
    else if (r.chance(1, 2) && !p.out.empty()) add_stale_outputs(r, s);
    if (r.chance(1, 3)) { // run it again over its own results
        Step st;
        s.steps.push_back(st);
        s.steps.push_back(st);
    }
    if (r.chance(1, 3)) {
        // unrelated files elsewhere
        FileSpec f;
        f.path = "/other/x.qbk";
        f.data = "unrelated\n";
        s.files.push_back(f);
    }
    s.opt["files"] = fmt("%llu", (unsigned long long)files_hash(s));
    return s;
}
static Violation p06_eval(Scenario const& s, Ctx& ctx) {
    if (!plain_noise(s)) return good();
    Scenario b = plain_world(s);
    if (s.get("debug") != "1") b.k.tick = 0;
    Exec ref = execute(b, ctx);
    Exec x = execute(s, ctx);
    ctx.nontrivial = ref.r0().ok();
    for (size_t i = 0; i < x.results.size(); ++i) {
        Exec y;
        y.results.push_back(x.results[i]);
        y.before = x.before;
        y.after.push_back(x.after[i]);
        Violation v = same_outcome(s, ref, y, "the environment");
        if (v && v.cls == "output-page" && i + 1 <= x.results.size()) {
            // stale pages of another document are nobody's output
        }
        if (v) {
            // a failed run leaves stale outputs alone
            if (!ref.r0().ok() && starts_with(v.cls, "output-")) continue;
            return v;
        }
    }
    auto g = s.opt.find("gold");
    if (g != s.opt.end() && s.get("files") == fmt("%llu", (unsigned long long)files_hash(s))) {
        auto i = ref.end().find(s.get("out"));
        if (!ref.r0().ok()) return bad("gold-status", "a document of the regression corpus does not convert: " + short_diag(ref.r0()));
        if (i == ref.end().end() || i->second.data != g->second)
            return bad("gold", "a document of the regression corpus gives other output than recorded: " +
                                   (i == ref.end().end() ? std::string("none") : first_difference(g->second, i->second.data)));
    }
    if (s.get("expect_error") == "1" && s.variant == "corpus" && ref.r0().ok() &&
        s.get("files") == fmt("%llu", (unsigned long long)files_hash(s)))
        return bad("gold-status", "a document of the regression corpus that must be rejected was accepted");
    return good();
}

// ================================================================ P07
static const char* ZONES[] = {"UTC0", "<+0530>-5:30", "<-11>11", "<+14>-14", "EST5EDT,M3.2.0,M11.1.0",
    "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+0545>-5:45"};
static Scenario p07_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus = false;
    o.dates = true;
    o.debug = r.chance(1, 5) ? 1 : 0;
    o.size = r.chance(1, 6) ? 2 : 1;
    o.includes = r.chance(2, 3);
    Scenario s;
    Project p = gen_project(r, o);
    while (p.out.empty()) p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    int n = 0;
    for (auto& f : s.files) {
        bool qbk = f.type == 'f' && (ends_with(f.path, ".qbk") || ends_with(f.path, ".quickbook")) && !starts_with(f.data, "DECOY");
        if (!qbk || (f.path != p.main && !r.chance(1, 2))) continue;
        std::string nl = contains(f.data, "\r\n") ? "\r\n" : "\n";
        std::string st = nl + nl + "STAMPA __DATE__ STAMPB __TIME__ STAMPC" + nl + nl;
        if (r.chance(1, 4)) st += "[section:stamped" + fmt("%d", n) + " x]" + st + "[endsect]" + nl;
        f.data += st;
        if (r.chance(1, 3)) {
            // and in a template called later
            f.data += fmt("[template stamp_t%d[] STAMPA __DATE__ STAMPB __TIME__ STAMPC]", n) + nl + nl + fmt("[stamp_t%d]", n) + nl + nl;
        }
        ++n;
    }
    // a start next to where dates change, and a slow or a fast machine
    static const int64_t marks[] = {946684800ll, 951782400ll, 1109635200ll, 1325376000ll, 1456704000ll, 1483228800ll, 1709164800ll, 2147483648ll, 4102444800ll, 0ll};
    int64_t at = r.chance(1, 2) ? marks[r.below(10)] : (int64_t)r.below(4200000000ull);
    if (r.chance(1, 2)) at = at / 86400 * 86400;
    if (r.chance(1, 4)) at += 43200;
    s.k.clock = at * 1000000000ll - (int64_t)r.below(3000000000ull) + (r.chance(1, 4) ? (int64_t)r.below(86400) * 1000000000ll : 0);
    static const int64_t ticks[] = {0, 1000, 1000000, 50000000, 1000000000ll, 61000000000ll};
    s.k.tick = ticks[r.below(6)];
    s.run0().tz = ZONES[r.below(8)];
    Exec ref = execute(s, ctx);
    int nf = r.range(0, 3);
    for (int i = 0; i < nf; ++i) {
        Fault f = at_event(ref.trace, r.below(ref.trace.size()));
        f.act = A_CLOCK;
        static const int64_t j[] = {1, 60, 3600, 86400, 86400 * 31, 86400 * 366ll};
        f.param = j[r.below(6)] * 1000000000ll * (r.chance(1, 2) ? 1 : -1);
        if (r.chance(1, 4)) f.count = 0, f.op = OP_READ, f.path = "*", f.param /= 10;
        s.faults.push_back(f);
    }
    s.variant = p.debug ? "debug" : s.faults.empty() ? "slow" : "clock-jumps";
    return s;
}
static struct tm local_in(const std::string& tz, time_t t) {
    std::string old = getenv("TZ") ? getenv("TZ") : "";
    bool had = getenv("TZ") != 0;
    setenv("TZ", tz.c_str(), 1);
    tzset();
    struct tm r = *localtime(&t);
    if (had) setenv("TZ", old.c_str(), 1);
    else unsetenv("TZ");
    tzset();
    return r;
}
static std::string squeeze(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '\n' || c == '\t' || c == '\r') c = ' ';
        if (c == ' ' && !o.empty() && o[o.size() - 1] == ' ') continue;
        o += c;
    }
    return o;
}
static Violation p07_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    ProcResult const& p = x.r0();
    if (!p.ok()) return died(p);
    bool debug = s.get("debug") == "1";
    std::vector<int64_t> times;
    for (auto& e : x.trace) if (e.op == OP_TIME) times.push_back(e.ret / 1000000000ll);
    std::set<std::string> dates, revs;
    int stamps = 0;
    for (auto& f : x.end()) {
        if (f.second.type != 'f' || !is_output_path(s, f.first) || f.first == s.get("deps") || f.first == s.get("locs")) continue;
        std::string t = squeeze(f.second.data);
        size_t i = 0;
        while ((i = t.find("STAMPA ", i)) != std::string::npos) {
            size_t e = t.find("STAMPC", i);
            if (e == std::string::npos) break;
            dates.insert(t.substr(i, e - i));
            ++stamps;
            i = e;
        }
        i = t.find("last-revision=\"");
        if (s.get("format") == "boostbook" && i != std::string::npos) {
            size_t b = i + 15, e = t.find('"', b);
            revs.insert(t.substr(b, e - b));
        }
    }
    ctx.nontrivial = stamps > 1;
    if (!stamps) return good();
    std::vector<std::pair<std::string, std::string>> want;
    auto add = [&](struct tm const& l, struct tm const& g) {
        char d[64], h[64], v[64];
        strftime(d, sizeof d, "%Y-%b-%d", &l);
        strftime(h, sizeof h, "%I:%M:%S %p", &l);
        strftime(v, sizeof v, debug ? "DEBUG MODE Date: %Y/%m/%d %H:%M:%S $" : "$" "Date: %Y/%m/%d %H:%M:%S $", &g);
        want.push_back(std::make_pair(std::string("STAMPA ") + d + " STAMPB " + h + " ", std::string(v)));
    };
    if (debug) {
        struct tm c;
        memset(&c, 0, sizeof c);
        c.tm_year = 100; c.tm_mon = 11; c.tm_mday = 20; c.tm_hour = 12;
        add(c, c);
    }
    else {
        if (times.empty()) return bad("no-clock", "the dates in the output come from no reading of the clock");
        for (auto t : times) {
            time_t tt = (time_t)t;
            struct tm g = *gmtime(&tt);
            add(local_in(s.run0().tz, tt), g);
        }
    }
    if (dates.size() > 1) {
        std::string all;
        for (auto& d : dates) all += quote(d) + " ";
        return bad("two-times", "one conversion shows different times: " + all);
    }
    for (auto& w : want) {
        bool ok = *dates.begin() == w.first;
        for (auto& v : revs) if (v != w.second) ok = false;
        if (ok) return good();
    }
    std::string all;
    for (auto& d : dates) all += quote(d) + " ";
    for (auto& d : revs) all += quote(d) + " ";
    return bad("wrong-time", "the dates in the output are not those of one moment of the run: " + all + "instead of " + quote(want[0].first) + " " + quote(want[0].second));
}

// ================================================================ P08
static Scenario p08_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 0;
    o.svg = false;
    o.debug = 1;
    o.size = r.chance(1, 5) ? 2 : 1;
    if (r.chance(1, 3)) o.deps = 1;
    Scenario s;
    Project p;
    for (;;) {
        p = gen_project(r, o);
        bool ok = false;
        for (auto& d : p.dirs) if ((d.kind == 'i' || d.kind == 'm') && !p.out.empty()) ok = true;
        if (ok) break;
    }
    install(s, p);
    gen_noise(r, s.k, s.run0());
    // refer to some files more than once, in the same words
    int reps = r.range(1, 3);
    std::vector<std::string> strict;
    for (int i = 0; i < reps; ++i) {
        std::vector<size_t> v;
        for (size_t k = 0; k < p.dirs.size(); ++k)
            if (p.dirs[k].kind == 'i' || p.dirs[k].kind == 'm') v.push_back(k);
        Directive const& d = p.dirs[r.pick(v)];
        FileSpec* f = s.find(d.file);
        if (!f) continue;
        auto lines = split_lines(f->data);
        if (d.line < 1 || (size_t)d.line > lines.size()) continue;
        std::string l = lines[(size_t)d.line - 1];
        if (l.empty() || l[0] != '[') continue;
        // the same file may be included as well as imported
        if (p.version >= 106 && r.chance(1, 4)) {
            bool code = !ends_with(d.path, ".qbk") && !ends_with(d.path, ".quickbook");
            if (starts_with(l, "[include ") && !d.glob && (!code || r.chance(1, 2))) l = "[import " + l.substr(9);
            else if (starts_with(l, "[import ") && !d.glob) l = "[include " + l.substr(8);
        }
        f->data += "\n\n" + l + "\n\n";
        if (d.file == p.main && !d.glob && d.path[0] != '/') strict.push_back(lexnorm(dirname_of(p.main) + "/" + d.path));
        if (r.chance(1, 8) && !d.glob)
            if (FileSpec* g = s.find(lexnorm(dirname_of(d.file) + "/" + d.path))) g->data.clear();
    }
    // referred to from nowhere but the main file, and only in one way of spelling
    for (auto& w : strict) {
        std::set<std::string> words;
        bool only = true;
        for (auto& d : p.dirs) {
            size_t at = d.path.rfind('/');
            if ((at == std::string::npos ? d.path : d.path.substr(at + 1)) != w.substr(w.rfind('/') + 1) && !d.glob) continue;
            if (d.file != p.main || d.glob) only = false;
            words.insert(d.path);
        }
        if (only && words.size() == 1 && s.find(w) && s.find(w)->type == 'f') s.opt["strict"] = w;
    }
    Exec ref = execute(s, ctx);
    auto reads = events(ref.trace, [&](Ev const& e) {
        return e.op == OP_OPEN && !is_open_write(e) && !e.err && !(e.flags & O_DIRECTORY) && ref.before.count(e.path) && is_source_name(e.path);
    });
    int n = r.range(1, 2);
    std::set<std::string> done;
    for (int i = 0; i < n && !reads.empty(); ++i) {
        std::string path = ref.trace[r.pick(reads)].path;
        if (!s.get("strict").empty() && r.chance(1, 2)) path = s.get("strict");
        auto b = ref.before.find(path);
        if (b == ref.before.end() || b->second.type != 'f' || !done.insert(path).second) continue;
        Edit e;
        e.kind = 'a';
        e.path = path;
        e.mode = 0644;
        e.data = replace_all(b->second.data, "tok", "new");
        if (r.chance(1, 4)) e.data += "\n\nadded paragraph\n\n";
        if (r.chance(1, 8)) e.data += "\n\n[endsect]\n\n";
        if (r.chance(1, 6)) e.data = "rewritten\n";
        if (r.chance(1, 12)) e.data.clear();
        // anywhere, but preferably between two uses of the file
        std::vector<size_t> near = events(ref.trace, [&](Ev const& q) { return q.path == path; });
        Fault f;
        size_t k;
        if (r.chance(2, 3) && !near.empty()) k = std::min(ref.trace.size() - 1, r.pick(near) + r.below(4));
        else k = r.below(ref.trace.size());
        f = at_event(ref.trace, k);
        f.act = A_EDIT;
        f.param = (int64_t)s.edits.size();
        s.edits.push_back(e);
        s.faults.push_back(f);
    }
    s.variant = fmt("%zu-edits", s.edits.size());
    return s;
}
static Violation p08_eval(Scenario const& s, Ctx& ctx) {
    if (s.edits.size() > 3) return good();
    Exec x = execute(s, ctx);
    ctx.nontrivial = x.injected;
    if (!x.injected) return good();
    // a file that is spelled in two ways is two sources
    for (auto& e : s.edits) {
        if (e.path == s.get("strict")) continue; // all its uses say the same
        std::set<std::string> sp;
        for (auto& t : x.trace) if (t.op == OP_OPEN && t.path == e.path) sp.insert(t.raw);
        if (sp.size() > 1) {
            ctx.stats->probe("two-spellings");
            ctx.nontrivial = false;
            return good();
        }
    }
    std::string why;
    size_t n = s.edits.size();
    for (size_t m = 0; m < (size_t(1) << n); ++m) {
        Scenario q = calm(s);
        q.steps.clear();
        for (size_t i = 0; i < n; ++i)
            if (m & (size_t(1) << i)) {
                if (FileSpec* f = q.find(s.edits[i].path)) f->data = s.edits[i].data;
            }
        Exec y = execute(q, ctx);
        Violation v = same_outcome(s, y, x, "an edit during the run");
        if (!v) {
            ctx.stats->probe(m == 0 ? "as-before" : m + 1 == (size_t(1) << n) ? "as-after" : "partly");
            return good();
        }
        if (m == 0) why = v.detail;
    }
    return bad("mixed", "a source was replaced during the run, and the result is that of no version of the sources: " + why);
}

// ================================================================ P13
static std::string recode(Rng& r, const std::string& lf, int how) {
    std::string o;
    bool prev_cr = false;
    for (size_t i = 0; i < lf.size(); ++i) {
        if (lf[i] != '\n') { o += lf[i]; prev_cr = false; continue; }
        int k = how == 3 ? (int)r.below(3) : how;
        if (k == 0 && prev_cr) k = 2; // CR then LF would be one line end
        if (k == 0) { o += '\n'; prev_cr = false; }
        else if (k == 1) { o += "\r\n"; prev_cr = false; }
        else { o += '\r'; prev_cr = true; }
    }
    return o;
}
static std::string wide(const std::string& s, int how) {
    // UTF-16/32 of the Latin-1 view of the text is as good as any
    static const char* bom[] = {"\xff\xfe", "\xfe\xff"};
    std::string o;
    bool le = how & 1, w4 = how & 2;
    if (!w4) o = bom[le ? 0 : 1];
    else o = le ? std::string("\xff\xfe\0\0", 4) : std::string("\0\0\xfe\xff", 4);
    for (char c : s) {
        std::string u(1, c);
        std::string z(w4 ? 3 : 1, '\0');
        o += le ? u + z : z + u;
    }
    return o;
}
static Scenario p13_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 40;
    o.size = r.chance(1, 5) ? 2 : 1;
    o.debug = 1;
    if (r.chance(1, 3)) o.deps = 1;
    Scenario s;
    Project p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    if (r.chance(1, 2)) {
        // read boundaries between CR and LF, inside the BOM
        s.run0().read_max = r.range(1, r.chance(1, 2) ? 4 : 64);
        s.run0().chunk_seed = r.chance(1, 2) ? r.next() % 100000 + 1 : 0;
    }
    bool utf16 = r.chance(1, 6);
    std::vector<size_t> src;
    for (size_t i = 0; i < s.files.size(); ++i) {
        FileSpec& f = s.files[i];
        if (f.type != 'f' || !is_source_name(f.path)) continue;
        if (starts_with(f.data, "\xef\xbb\xbf")) f.data = f.data.substr(3);
        f.data = replace_all(replace_all(f.data, "\r\n", "\n"), "\r", "\n");
        src.push_back(i);
    }
    if (r.chance(1, 6) && !p.corpus) s.find(p.main)->data += "\n\n[endsect]\n\n[include nowhere.qbk]\n\n";
    if (utf16 && !src.empty()) {
        s.variant = "wide";
        size_t k = r.chance(1, 2) ? r.pick(src) : 0;
        for (size_t i = 0; k == 0 && i < src.size(); ++i) if (s.files[src[i]].path == p.main) k = src[i];
        Edit e;
        e.kind = 'a';
        e.path = s.files[k].path;
        e.data = wide(s.files[k].data, (int)r.below(4));
        s.edits.push_back(e);
    }
    else {
        s.variant = "line-ends";
        bool some = r.chance(1, 2), bom = r.chance(1, 3);
        int how = r.range(1, 3);
        for (auto i : src) {
            if (some && r.chance(1, 2)) continue;
            Edit e;
            e.kind = 'a';
            e.path = s.files[i].path;
            e.data = recode(r, s.files[i].data, some ? r.range(0, 3) : how);
            // a BOM in a file that begins with one of its bytes would be another text
            if ((bom || r.chance(1, 6)) && !e.data.empty()) e.data = "\xef\xbb\xbf" + e.data;
            s.edits.push_back(e);
        }
    }
    // the edits are made before the run
    Step st;
    for (size_t i = 0; i < s.edits.size(); ++i) {
        st.kind = 'e';
        st.arg = (int64_t)i;
        s.steps.push_back(st);
    }
    st.kind = 'r';
    st.arg = 0;
    s.steps.push_back(st);
    return s;
}
static Violation p13_eval(Scenario const& s, Ctx& ctx) {
    if (!plain_noise(s)) return good();
    Scenario q = calm(s);
    q.steps.clear();
    Exec ref = execute(q, ctx);
    Exec x = execute(s, ctx);
    if (x.results.empty()) return good();
    if (s.variant == "wide") {
        bool read = false;
        std::string which;
        for (auto& e : s.edits)
            for (auto& t : ref.trace)
                if (t.op == OP_OPEN && !t.err && t.path == e.path) { read = true; which = e.path; }
        bool step = false;
        for (auto& st : s.steps) if (st.kind == 'e') step = true;
        ctx.nontrivial = read && step;
        if (!read || !step) return good();
        Violation v = died(x.r0());
        if (v) return v;
        if (x.r0().ok()) return bad("wide-accepted", which + " is not UTF-8, but the run ends with exit status 0");
        if (!contains(diagnostics(x.r0()), "not supported"))
            return bad("wide-unnamed", which + " is not UTF-8, and no message says so: " + short_diag(x.r0()));
        return good();
    }
    ctx.nontrivial = !s.edits.empty();
    return same_outcome(s, ref, x, "other line ends or a byte order mark");
}

void add_det_props(std::vector<Property>& v) {
    v.push_back(Property{"P06",
        "A case is a project (every eighth a document of the regression corpus) converted in the plainest world and in a "
        "noisy one: directory order, inode numbers, heap layout and content, ambient state, environment, locale, clock and "
        "zone (with --debug), read and write sizes, outputs of earlier runs, repetition; non-trivial when it converts.",
        p06_gen, p06_eval, 16000, 80000});
    v.push_back(Property{"P07",
        "A case is a generated project that shows the date and time in several places, on a machine whose clock starts next "
        "to a date change, runs slowly or jumps, in one of eight time zones; non-trivial when two places show the time.",
        p07_gen, p07_eval, 21000, 160000});
    v.push_back(Property{"P08",
        "A case is a generated project that refers to files more than once, with one or two sources atomically replaced at "
        "chosen calls of the run; non-trivial when a replacement happened during the run.",
        p08_gen, p08_eval, 14000, 80000});
    v.push_back(Property{"P13",
        "A case is a project whose sources are rewritten with other line ends, mixed line ends, byte order marks or wide "
        "encodings and read in pieces of a few bytes; non-trivial when a source that is read was rewritten.",
        p13_gen, p13_eval, 25000, 120000});
}

} // namespace qs
