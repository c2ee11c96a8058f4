// qbsim: properties about output, input, crashes and confinement.
#include <csignal>
#include "props.hpp"
#include <cerrno>
#include <fcntl.h>

namespace qs {

static const int OUT_ERRS_OPEN[] = {EACCES, ENOSPC, EIO, EROFS, EMFILE, EDQUOT, EPERM, ENFILE, ENOMEM, EISDIR};
static const int OUT_ERRS_WRITE[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPERM, EPIPE};
static const int OUT_ERRS_CLOSE[] = {EIO, ENOSPC, EDQUOT};
static const int MKDIR_ERRS[] = {EACCES, ENOSPC, EROFS, EIO, EMLINK};
#define PICK(r, a) a[(r).below(sizeof a / sizeof *a)]

std::vector<size_t> events(std::vector<Ev> const& t, std::function<bool(Ev const&)> f) {
    std::vector<size_t> v;
    for (size_t i = 0; i < t.size(); ++i)
        if (f(t[i])) v.push_back(i);
    return v;
}
int nth_of(std::vector<Ev> const& t, size_t i) {
    int n = 0;
    for (size_t k = 0; k <= i; ++k)
        if (t[k].op == t[i].op && t[k].path == t[i].path && t[k].proc == t[i].proc) ++n;
    return n;
}
Fault at_event(std::vector<Ev> const& t, size_t i) {
    Fault f;
    f.op = t[i].op;
    f.path = t[i].path;
    f.nth = nth_of(t, i);
    return f;
}
// output handles: every write to an output path
static bool ev_output_write(Scenario const& s, Ev const& e) { return e.op == OP_WRITE && is_output_path(s, e.path); }
bool ev_output_open(Scenario const& s, Ev const& e) { return is_open_write(e) && is_output_path(s, e.path); }

void add_stale_outputs(Rng& r, Scenario& s) {
    // outputs of an earlier run, which this one replaces
    auto add = [&](const std::string& p, const std::string& d) {
        if (s.find(p)) return;
        FileSpec f;
        f.path = p;
        f.data = d;
        s.files.push_back(f);
    };
    std::string big;
    if (r.chance(1, 2)) for (int i = 0; i < 2000; ++i) big += "STALE OUTPUT LINE\n";
    std::string out = s.get("out");
    if (!out.empty()) {
        if (s.get("format") == "html") add(out + "/index.html", "STALE PAGE\n" + big);
        else add(out, "STALE DOCUMENT\n" + big);
    }
    if (!s.get("deps").empty()) add(s.get("deps"), "STALE DEPS\n" + big);
    if (!s.get("locs").empty()) add(s.get("locs"), "STALE LOCS\n" + big);
}

std::string role_of(Scenario const& s, const std::string& p) {
    if (p == s.get("deps")) return "deps";
    if (p == s.get("locs")) return "locs";
    if (s.get("format") == "html") return "page";
    return "document";
}

// ================================================================ P01
static Scenario p01_gen(Rng& r, Ctx& ctx, int index) {
    GenOpts o;
    o.corpus_pct = 15;
    o.includes = r.chance(1, 3);
    o.size = r.chance(1, 5) ? 2 : (int)r.below(2);
    o.many_pages = r.chance(1, 2);
    if (r.chance(2, 3)) o.deps = 1;
    Scenario s;
    install(s, gen_project(r, o));
    if (r.chance(1, 2)) add_stale_outputs(r, s);
    gen_noise(r, s.k, s.run0());
    s.run0().eintr = 0;
    Exec ref = execute(calm(s), ctx);
    auto& t = ref.trace;
    int kind = (int)r.below(12);
    auto opens = events(t, [&](Ev const& e) { return ev_output_open(s, e) && !e.err; });
    auto writes = events(t, [&](Ev const& e) { return ev_output_write(s, e); });
    auto closes = events(t, [&](Ev const& e) { return e.op == OP_CLOSE && is_output_path(s, e.path); });
    auto mkdirs = events(t, [&](Ev const& e) { return e.op == OP_MKDIR; });
    if (kind == 0 && !mkdirs.empty()) {
        Fault f = at_event(t, r.pick(mkdirs));
        f.err = PICK(r, MKDIR_ERRS);
        f.count = (int)r.below(2);
        s.faults.push_back(f);
        s.variant = "mkdir-fail";
    }
    else if (kind <= 2 && !opens.empty()) {
        Fault f = at_event(t, r.pick(opens));
        f.err = PICK(r, OUT_ERRS_OPEN);
        f.count = (int)r.below(2);
        s.faults.push_back(f);
        s.variant = "open-fail";
    }
    else if (kind <= 5 && !writes.empty()) {
        Fault f = at_event(t, r.pick(writes));
        if (r.chance(1, 3)) { f.act = A_TORN; f.param = (int64_t)r.below(600); }
        f.err = PICK(r, OUT_ERRS_WRITE);
        f.count = (int)r.below(2);
        s.faults.push_back(f);
        s.variant = "write-fail";
    }
    else if (kind <= 7 && !closes.empty()) {
        size_t i = r.pick(closes);
        Fault f = at_event(t, i);
        f.act = A_CLOSELOSE;
        f.err = PICK(r, OUT_ERRS_CLOSE);
        auto it = ref.end().find(t[i].path);
        int64_t n = it == ref.end().end() ? 0 : (int64_t)it->second.data.size();
        f.param = r.chance(1, 2) ? n : (int64_t)r.below((uint64_t)n + 1);
        s.faults.push_back(f);
        s.variant = "close-fail";
    }
    else if (kind <= 10) {
        // a disk that fills up: space for what is there and part of what is written
        int64_t before = 0, after = 0;
        for (auto& f : ref.before) before += (int64_t)f.second.data.size();
        for (auto& f : ref.end()) after += (int64_t)f.second.data.size();
        int64_t stale = 0;
        for (auto& f : ref.before) if (is_output_path(s, f.first)) stale += (int64_t)f.second.data.size();
        int64_t base = before - stale;
        int64_t need = after - base;
        s.k.capacity = base + (r.chance(1, 4) ? need - 1 - (int64_t)r.below(8) : (int64_t)r.below((uint64_t)need + 1));
        if (s.k.capacity < before) s.k.capacity = r.chance(1, 2) ? before : s.k.capacity;
        s.variant = "full-disk";
    }
    else {
        s.run0().write_max = 1 + (int64_t)r.below(300);
        s.run0().chunk_seed = r.next() % 100000 + 1;
        s.run0().eintr = r.range(2, 6);
        s.variant = "short-writes";
    }
    return s;
}
static Violation p01_eval(Scenario const& s, Ctx& ctx) {
    Exec ref = execute(calm(s), ctx);
    if (!ref.r0().ok()) return good();
    Exec x = execute(s, ctx);
    ctx.nontrivial = x.injected || s.variant == "short-writes";
    ProcResult const& p = x.r0();
    if (p.ok()) {
        auto d = tree_diff(ref.end(), x.end());
        std::vector<std::string> o;
        for (auto& f : d) if (is_output_path(s, f)) o.push_back(f);
        if (!o.empty())
            return bad("silent-loss-" + role_of(s, o[0]),
                "exit status 0, but the output is not what a run without faults writes: " +
                    describe_diff(ref.end(), x.end(), o));
        return good();
    }
    if (s.variant == "short-writes")
        return bad("short-write-fatal", "partial writes made the run fail: " + p.status() + " " + short_diag(p));
    if (p.exited && diagnostics(p).find("rror") == std::string::npos &&
        diagnostics(p).size() <= diagnostics(ref.r0()).size())
        return bad("silent-failure", "nonzero exit without any diagnostic: " + p.status() + " " + short_diag(p));
    return good();
}

// ================================================================ P02
static bool is_input_file(Exec const& ref, Scenario const& s, const std::string& p) {
    auto i = ref.before.find(p);
    return i != ref.before.end() && i->second.type == 'f' && !is_output_path(s, p);
}
static Scenario p02_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 20;
    o.size = r.chance(1, 5) ? 2 : 1;
    o.bulk = r.chance(1, 6);
    if (r.chance(1, 5)) { o.globby = true; o.min_version = 107; }
    Scenario s;
    install(s, gen_project(r, o));
    if (r.chance(1, 4)) add_stale_outputs(r, s);
    gen_noise(r, s.k, s.run0());
    s.run0().eintr = 0;
    long least = o.bulk ? 200 : 0; // enough calls for files of any size
    if (s.run0().write_max) s.run0().write_max += least;
    if (r.chance(1, 5)) {
        s.variant = "short-reads";
        s.run0().read_max = least + 1 + (int64_t)r.below(r.chance(1, 2) ? 5 : 700);
        s.run0().chunk_seed = r.next() % 100000 + 1;
        s.run0().eintr = r.range(2, 5);
        return s;
    }
    // aim with the chunking that will be in force, so later reads can be hit
    Scenario probe = s;
    Exec ref = execute(probe, ctx);
    auto& t = ref.trace;
    auto opens = events(t, [&](Ev const& e) { return e.op == OP_OPEN && !is_open_write(e) && !e.err && is_input_file(ref, s, e.path); });
    auto reads = events(t, [&](Ev const& e) { return e.op == OP_READ && is_input_file(ref, s, e.path); });
    auto dirs = events(t, [&](Ev const& e) { return (e.op == OP_OPEN && (e.flags & O_DIRECTORY)) || e.op == OP_READDIR; });
    auto stats = events(t, [&](Ev const& e) { return (e.op == OP_STAT || e.op == OP_LSTAT) && !e.err && is_input_file(ref, s, e.path); });
    static const int errs[] = {EIO, EIO, EACCES, EMFILE, ENFILE, ENOMEM, EPERM, ESTALE, ENOENT};
    static const int rerrs[] = {EIO, EIO, ESTALE, EINVAL, EBADF, ENOMEM, ENXIO};
    int kind = (int)r.below(10);
    Fault f;
    if (kind < 4 && !opens.empty()) {
        f = at_event(t, r.pick(opens));
        f.err = PICK(r, errs);
        s.variant = "open-fail";
    }
    else if (kind < 8 && !reads.empty()) {
        f = at_event(t, r.pick(reads));
        f.err = PICK(r, rerrs);
        s.variant = "read-fail";
    }
    else if (kind == 8 && o.globby && r.chance(1, 2)) {
        // looks at directories that are searched
        std::vector<size_t> v;
        for (auto i : events(t, [&](Ev const& e) { return (e.op == OP_STAT || e.op == OP_LSTAT) && !e.err; })) {
            if (contains(t[i].path, "/gl") || contains(t[i].path, "/hg")) v.push_back(i);
        }
        if (v.empty()) { s.variant = "none"; return s; }
        f = at_event(t, r.pick(v));
        f.err = r.chance(1, 2) ? EIO : EACCES;
        s.variant = "stat-fail";
    }
    else if (kind == 8 && !dirs.empty()) {
        f = at_event(t, r.pick(dirs));
        f.err = EIO;
        s.variant = "dir-fail";
    }
    else if (!stats.empty()) {
        f = at_event(t, r.pick(stats));
        f.err = r.chance(1, 2) ? EIO : EACCES;
        s.variant = "stat-fail";
    }
    else {
        s.variant = "none";
        return s;
    }
    f.count = (int)r.below(2);
    s.faults.push_back(f);
    return s;
}
static Violation p02_eval(Scenario const& s, Ctx& ctx) {
    Exec ref = execute(calm(s), ctx);
    Exec x = execute(s, ctx);
    ProcResult const& p = x.r0();
    if (s.variant == "short-reads" || s.faults.empty()) {
        ctx.nontrivial = s.variant == "short-reads";
        if (p.status() != ref.r0().status() || diagnostics(p) != diagnostics(ref.r0()))
            return bad("short-read-status",
                "short or interrupted reads changed the outcome: " + p.status() + " " + short_diag(p) + " instead of " +
                    ref.r0().status() + " " + short_diag(ref.r0()));
        auto d = tree_diff(ref.end(), x.end());
        if (!d.empty())
            return bad("short-read-output", "short or interrupted reads changed the output: " + describe_diff(ref.end(), x.end(), d));
        return good();
    }
    if (!ref.r0().ok()) return good();
    ctx.nontrivial = x.injected;
    if (!x.injected) return good();
    if (p.ok()) {
        auto d = tree_diff(ref.end(), x.end());
        if (!d.empty())
            return bad("silent-" + s.variant,
                "exit status 0 although " + fault_str(s.faults[0]) + " was met, and the output differs: " +
                    describe_diff(ref.end(), x.end(), d));
        return good();
    }
    if (p.exited) {
        std::string d = diagnostics(p);
        if (!contains(d, "rror"))
            return bad("undiagnosed-" + s.variant, "nonzero exit without an error message: " + short_diag(p));
        if ((s.variant == "open-fail" || s.variant == "read-fail")) {
            std::string b = basename_of(s.faults[0].path);
            bool plain = true;
            for (char c : b) if ((unsigned char)c < 0x20) plain = false;
            if (plain && !contains(d, b))
                return bad("unnamed-" + s.variant, "the message does not name the file that could not be read (" + b + "): " + short_diag(p));
        }
    }
    return good();
}

// ================================================================ P03
static Scenario p03_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 10;
    o.includes = r.chance(2, 3);
    o.deps = r.chance(1, 3) ? 1 : 0;
    Scenario s;
    Project p = gen_project(r, o);
    while (p.out.empty()) p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    s.run0().eintr = 0;
    std::string out = s.get("out");
    int stale = r.chance(4, 5);
    if (stale) {
        add_stale_outputs(r, s);
        if (s.get("format") == "html" && r.chance(1, 2)) {
            FileSpec f;
            f.path = out + "/main_id/s1.html";
            f.data = "OLD\n";
            s.files.push_back(f);
        }
    }
    // which source gets the error
    std::vector<size_t> src;
    for (size_t i = 0; i < s.files.size(); ++i)
        if (s.files[i].type == 'f' && (ends_with(s.files[i].path, ".qbk") || ends_with(s.files[i].path, ".quickbook")) &&
            !starts_with(s.files[i].data, "DECOY") && (!p.corpus || s.files[i].path == p.main))
            src.push_back(i);
    FileSpec& f = s.files[r.pick(src)];
    static const char* errs[] = {"\n\n[endsect]\n\n", "\n\n[section:never_closed Title]\n\n", "\n\n[include no_such_file.qbk]\n\n",
        "\n\n[import no_such_file.cpp]\n\n", "\n\n[table\n\n", "\n\n[note unclosed\n", "\n\n[template bad_t[a b]]\n\n[bad_t]\n\n",
        "\n\n[include weird\\path.qbk]\n\n", "\n\n[blurb x]]]\n\n[note\n\n"};
    int kind = (int)r.below(16);
    if (r.chance(1, 12)) {
        s.run0().args.insert(s.run0().args.begin(), "-D" + odd_define(r, true));
        s.variant = "bad-define";
    }
    else if (kind >= 14) {
        // raw XML that cannot be laid out or converted
        int n = r.range(1, 2);
        for (int i = 0; i < n; ++i) insert_piece(r, s.files[r.chance(1, 2) && s.find(p.main) ? (size_t)(s.find(p.main) - &s.files[0]) : r.pick(src)], oddity(r, p.version, i, r.chance(1, 4) ? 30 : r.chance(2, 3) ? r.range(5, 11) : r.chance(1, 2) ? 3 : r.range(0, 2)));
        if (r.chance(1, 3)) s.run0().args.insert(s.run0().args.begin(), "--no-pretty-print");
        s.variant = "raw-xml";
    }
    else if (kind < 9 && r.chance(2, 3)) {
        int n = r.range(1, 3);
        if (r.chance(1, 10)) n = r.range(100, 300);
        add_mistakes(r, s, p, n, 0);
        s.variant = "source-error";
    }
    else if (kind < 9) {
        f.data += errs[kind];
        s.variant = "source-error";
    }
    else if (kind == 9) {
        f.data = std::string("\xfe\xff\0[", 4) + f.data;
        s.variant = "wrong-encoding";
    }
    else if (kind == 10) {
        std::string path = f.path;
        if (r.chance(1, 2)) { Edit e; (void)e; }
        for (size_t i = 0; i < s.files.size(); ++i)
            if (s.files[i].path == path) { s.files.erase(s.files.begin() + (long)i); break; }
        s.variant = "missing-source";
    }
    else {
        Exec ref = execute(s, ctx);
        auto reads = events(ref.trace, [&](Ev const& e) { return e.op == OP_READ && is_input_file(ref, s, e.path); });
        if (!reads.empty()) {
            Fault q = at_event(ref.trace, r.pick(reads));
            q.err = EIO;
            q.count = 0;
            s.faults.push_back(q);
        }
        s.variant = "read-error";
    }
    s.opt["noshrink"] = "0";
    return s;
}
static Violation p03_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    ProcResult const& p = x.r0();
    if (!p.exited) return good();
    // an exit status of 0 does not make it right when errors were reported
    if (p.ok() && !contains(diagnostics(p), " error: ") && !contains(diagnostics(p), "Error count: ")) return good();
    // a document that cannot be laid out is written as it is: that is said and meant
    if (s.get("format") == "boostbook" && contains(diagnostics(p), "Post Processing Failed.")) return good();
    ctx.nontrivial = true;
    std::string out = s.get("out");
    auto d = tree_diff(x.before, x.end());
    std::vector<std::string> o;
    for (auto& f : d)
        if (is_output_path(s, f) && f != s.get("deps") && f != s.get("locs")) o.push_back(f);
    if (!o.empty())
        return bad("output-touched", "the run failed with errors in its input (" + short_diag(p) + ") but the output changed: " +
                                         describe_diff(x.before, x.end(), o));
    for (auto& e : x.trace)
        if (ev_output_open(s, e) && !e.err && e.path != s.get("deps") && e.path != s.get("locs"))
            return bad("output-opened", "the run failed with errors in its input but opened " + e.path + " for writing");
    return good();
}

// ================================================================ P09
// Sources as an interrupted editor, a bad disk or a lost sector leaves them.
void tear_source(Rng& r, FileSpec& f) {
    std::string& d = f.data;
    if (d.empty()) return;
    size_t n = d.size(), at = r.below(n), len = std::min(n - at, (size_t)r.range(1, r.chance(1, 2) ? 12 : 600));
    // mostly cut in the middle of markup
    if (r.chance(2, 3)) {
        size_t q = d.find_first_of("[]`'<>=$@#:|\n\"", at);
        if (q != std::string::npos) at = q + r.below(3);
        if (at >= n) at = n - 1;
        len = std::min(n - at, len);
    }
    switch (r.below(8)) {
    case 0: case 1: case 2: d.resize(at); break;                        // the rest never reached the disk
    case 3: d.replace(at, len, std::string(len, '\0')); break;           // a hole
    case 4: d.erase(at, len); break;                                     // a lost piece
    case 5: d.insert(at, d.substr(at, len)); break;                      // a piece written twice
    case 6: for (size_t i = 0; i < len; ++i) d[at + i] = (char)(d[at + i] ^ (1u << r.below(8))); break; // flipped bits
    default: { // pieces in the wrong order
        size_t b = r.below(n), l2 = std::min(n - b, len);
        std::string piece = d.substr(b, l2);
        d.replace(at, len, piece);
    }
    }
}
static Scenario p09_torn(Rng& r, Ctx& ctx) {
    GenOpts o;
    o.corpus_pct = 50;
    o.size = (int)r.below(3);
    Scenario s;
    Project p = gen_project(r, o);
    install(s, p);
    gen_noise(r, s.k, s.run0());
    // a writer in the middle of things
    bool odd = r.chance(1, 2);
    if (odd) {
        bool legal = r.chance(1, 2);
        add_mistakes(r, s, p, legal ? 0 : r.range(1, 4), r.range(legal ? 1 : 0, 4));
        if (!legal && r.chance(1, 3)) add_info_oddity(r, s, p);
    }
    // enough calls for any source, also one that reads or writes a lot
    if (s.run0().read_max && s.run0().read_max < 64) s.run0().read_max = 64;
    if (s.run0().write_max && s.run0().write_max < 64) s.run0().write_max = 64;
    std::vector<size_t> v, qbk;
    for (size_t i = 0; i < s.files.size(); ++i)
        if (s.files[i].type == 'f' && !s.files[i].data.empty()) {
            v.push_back(i);
            if (ends_with(s.files[i].path, ".qbk") || ends_with(s.files[i].path, ".quickbook")) qbk.push_back(i);
        }
    if (r.chance(1, 12) && !p.corpus) {
        // files that lead back to themselves
        std::string dir = dirname_of(p.main);
        FileSpec* m = s.find(p.main);
        int n = r.range(1, 3), up = (int)r.below(4);
        bool code = r.chance(1, 5);
        for (int i = 0; i < n; ++i) {
            FileSpec f;
            std::string next = up == 0 && i + 1 == n ? basename_of(p.main) : fmt("round%d", (i + 1) % n) + (code ? ".cpp" : ".qbk");
            std::string l = (r.chance(1, 4) && p.version >= 106 ? "[import " : "[include ") + next + "]";
            f.path = dir + fmt("/round%d", i) + (code ? ".cpp" : ".qbk");
            f.data = code ? "/*`\n" + l + "\n*/\n" : "going round\n\n" + l + "\n\n";
            if (r.chance(1, 4)) f.data += f.data;
            s.files.push_back(f);
        }
        m = s.find(p.main);
        m->data += std::string("\n\n") + "[include round0" + (code ? ".cpp" : ".qbk") + "]\n\n";
    }
    int n = odd && r.chance(1, 2) ? 0 : r.range(1, 3);
    for (int i = 0; i < n; ++i) tear_source(r, s.files[!qbk.empty() && r.chance(3, 4) ? r.pick(qbk) : r.pick(v)]);
    s.variant = "torn-source";
    s.groups[0].max_calls = 60000;
    return s;
}
static Scenario p09_gen(Rng& r, Ctx& ctx, int index) {
    if (index % 3 == 2) return p09_torn(r, ctx);
    GenOpts o;
    o.corpus_pct = 30;
    o.size = (int)r.below(3);
    o.many_pages = r.chance(1, 3);
    if (r.chance(1, 2)) o.deps = 1;
    Scenario s;
    install(s, gen_project(r, o));
    if (r.chance(1, 3)) add_stale_outputs(r, s);
    if (r.chance(1, 8)) s.run0().args.push_back("-D" + odd_define(r, r.chance(1, 2)));
    gen_noise(r, s.k, s.run0());
    Exec ref = execute(s, ctx);
    auto& t = ref.trace;
    s.opt["calls"] = fmt("%zu", t.size());
    auto usable = events(t, [](Ev const& e) { return e.op != OP_EXIT && e.op != OP_GETENV; });
    int n = r.range(1, 4);
    static const int errs[] = {EIO, EACCES, ENOENT, ENOSPC, EMFILE, ENFILE, ENOMEM, EROFS, ENOTDIR, ELOOP, ENAMETOOLONG,
        EPERM, EBUSY, EEXIST, EISDIR, ETIMEDOUT, ESTALE, EOVERFLOW, EINTR, EAGAIN};
    for (int i = 0; i < n && !usable.empty(); ++i) {
        size_t k = r.pick(usable);
        Fault f = at_event(t, k);
        f.count = r.chance(1, 3) ? 0 : r.range(1, 3);
        f.err = PICK(r, errs);
        if (f.err == EINTR || f.err == EAGAIN) f.count = r.range(1, 3);
        switch (r.below(8)) {
        case 0: f.path = "*"; break; // every such call, whatever the file
        case 1:
            if (f.op == OP_READ || f.op == OP_WRITE) { f.act = A_SHORT; f.param = r.range(1, 40) + (f.count == 0 ? 200 : 0); f.err = 0; }
            break;
        case 2: f.act = A_CLOCK; f.err = 0; f.param = ((int64_t)r.next()) >> r.range(2, 30); break;
        case 3: {
            // the file system changes under the run
            Edit e;
            std::vector<size_t> fs;
            for (size_t q = 0; q < s.files.size(); ++q) if (s.files[q].path != "/") fs.push_back(q);
            FileSpec const& g = s.files[r.pick(fs)];
            e.path = g.path;
            switch (r.below(4)) {
            case 0: e.kind = 'd'; break;
            case 1: e.kind = 'c'; e.mode = r.chance(1, 2) ? 0 : 0222; break;
            case 2: e.kind = 'd'; e.path = dirname_of(g.path); break;
            default: e.kind = 'w'; e.data = g.data.substr(0, r.below(g.data.size() + 1)); e.mode = 0644; if (g.type != 'f') e.kind = 'd';
            }
            if (e.path == "/") e.path = g.path;
            f.act = A_EDIT;
            f.param = (int64_t)s.edits.size();
            f.err = 0;
            f.count = 1;
            s.edits.push_back(e);
            break;
        }
        }
        s.faults.push_back(f);
    }
    if (r.chance(1, 6)) {
        int64_t before = 0, after = 0;
        for (auto& f : ref.before) before += (int64_t)f.second.data.size();
        for (auto& f : ref.end()) after += (int64_t)f.second.data.size();
        if (after > before) s.k.capacity = before + (int64_t)r.below((uint64_t)(after - before));
    }
    s.variant = "io";
    s.groups[0].max_calls = (int)t.size() * 4 + 20000;
    return s;
}
// Elements left open, one in the other, where the source ends.
static int left_open(const std::string& t) {
    int depth = 0, most = 0;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\\') { ++i; continue; }
        if (t[i] == '[') ++depth;
        else if (t[i] == ']' && depth) --depth;
        most = std::max(most, depth);
    }
    return std::min(most, depth + 4);
}
static Violation p09_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    ctx.nontrivial = x.injected || s.variant == "torn-source";
    if (x.r0().heap_error == 4) {
        // all the memory there is was asked for, counting what was given back: not counting it now
        Scenario t = s;
        for (auto& c : t.groups[0].procs) c.heap_mode = 3;
        x = execute(t, ctx);
    }
    ProcResult const& p = x.r0();
    Violation v = p.heap_error == 4 ? bad("hang", "the run takes all memory: " + p.status()) : died(p);
    if (v.cls == "hang") {
        for (auto& f : s.files)
            if (f.type == 'f' && left_open(f.data) > 16) {
                v.cls = "hang-nesting";
                v.detail = "the run does not end with elements deeply nested and left open in " + f.path;
            }
    }
    if (v) return v;
    if (p.exited && p.code != 0 && diagnostics(p).find("rror") == std::string::npos &&
        diagnostics(p).find("No filename given") == std::string::npos)
        return bad("silent-exit", "exit status " + fmt("%d", p.code) + " without an error message: " + short_diag(p));
    if (p.exited && p.code < 0)
        return bad("odd-exit", p.status());
    return good();
}

// ================================================================ P10
static Scenario p10_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 30;
    o.size = r.chance(1, 4) ? 2 : (int)r.below(2);
    o.includes = r.chance(1, 2);
    if (r.chance(1, 2)) o.deps = 1;
    bool docbook = r.chance(1, 4);
    if (docbook) {
        o.corpus = false;
        o.size = 0;
        if (r.chance(5, 6)) o.fmt = r.range(1, 2);
    }
    Scenario s;
    Project proj = gen_project(r, o);
    install(s, proj);
    if (docbook) add_docbook(r, s, proj, false);
    if (r.chance(1, 3)) add_stale_outputs(r, s);
    s.run0().heap_mode = (int)r.below(4);
    s.run0().heap_seed = r.next() % 1000;
    Scenario q = s;
    q.run0().record_sites = true;
    Exec ref = execute(q, ctx);
    uint64_t n = (uint64_t)ref.r0().allocs;
    s.run0().alloc_fail_at = 1 + (int64_t)r.below(n + 1);
    // later allocations (post processing, output) are a small part of all
    if (r.chance(1, 6)) s.run0().alloc_fail_at = (int64_t)(n - r.below(n / 8 + 1));
    else if (r.chance(4, 5)) {
        // every place that asks for memory is as likely as any other
        std::vector<uint32_t> const& sites = ref.r0().sites[r.below(2)];
        std::map<uint32_t, std::vector<uint32_t>> where;
        std::vector<uint32_t> order;
        for (size_t i = 0; i < sites.size(); ++i) {
            std::vector<uint32_t>& w = where[sites[i]];
            if (w.empty()) order.push_back(sites[i]);
            w.push_back((uint32_t)i);
        }
        ctx.stats->probes["places that ask for memory"] += (long)order.size();
        if (!order.empty()) s.run0().alloc_fail_at = 1 + (int64_t)r.pick(where[r.pick(order)]);
    }
    s.run0().alloc_fail_count = r.chance(1, 4) ? 0 : r.chance(1, 4) ? r.range(2, 5) : 1;
    s.variant = s.run0().alloc_fail_count ? "transient" : "exhausted";
    return s;
}
static Violation p10_eval(Scenario const& s, Ctx& ctx) {
    Exec ref = execute(calm(s), ctx);
    Exec x = execute(s, ctx);
    ProcResult const& p = x.r0();
    ctx.nontrivial = p.alloc_failed > 0;
    if (!ref.r0().ok()) return good();
    if (p.heap_error && p.heap_error != 4) return died(p);
    if (p.hung) return bad("hang", "the run does not end after a failed allocation");
    if (p.ok()) {
        auto d = tree_diff(ref.end(), x.end());
        if (!d.empty())
            return bad("silent-" + role_of(s, d[0]),
                "an allocation failed, the exit status is 0, and the output is wrong: " +
                    describe_diff(ref.end(), x.end(), d));
        return good();
    }
    if (p.exited && diagnostics(p).find("rror") == std::string::npos && !contains(diagnostics(p), "bad_alloc"))
        return bad("silent-failure", "nonzero exit without any diagnostic: " + p.status() + " " + short_diag(p));
    return good();
}

// ================================================================ P11
static Scenario p11_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 15;
    o.includes = r.chance(1, 2);
    o.size = r.chance(1, 4) ? 2 : 1;
    o.many_pages = r.chance(1, 2);
    o.debug = 1; // the dates of the two runs would differ
    if (r.chance(1, 2)) o.deps = 1;
    Scenario s;
    install(s, gen_project(r, o));
    if (r.chance(1, 2)) add_stale_outputs(r, s);
    gen_noise(r, s.k, s.run0());
    Exec ref = execute(s, ctx);
    auto& t = ref.trace;
    auto late = events(t, [&](Ev const& e) { return is_output_path(s, e.path) || e.op == OP_MKDIR; });
    auto any = events(t, [&](Ev const& e) { return e.op != OP_GETENV && e.op != OP_EXIT; });
    int crashes = r.chance(1, 4) ? 2 : 1;
    for (int i = 0; i < crashes; ++i) {
        size_t k = !late.empty() && r.chance(5, 6) ? r.pick(late) : r.pick(any);
        Fault f = at_event(t, k);
        f.run = i;
        f.act = r.chance(1, 2) ? A_CRASH : A_CRASH_AFTER;
        bool failed = r.chance(1, 4);
        if (failed) {
            // it ends by itself, but not well
            static const int errs[] = {EIO, ENOSPC, EACCES, EMFILE, EROFS};
            f.act = f.op == OP_WRITE && r.chance(1, 2) ? A_TORN : A_FAIL;
            f.err = PICK(r, errs);
            f.count = r.chance(1, 2) ? 0 : 1;
            f.param = f.act == A_TORN ? r.range(0, 60) : 0;
        }
        s.faults.push_back(f);
        Step st;
        st.kind = 'r';
        st.arg = 0;
        s.steps.push_back(st);
        if (failed) s.variant = "failed";
        else if (r.chance(1, 2)) { st.kind = 'p'; st.arg = (int64_t)(r.next() % 100000); s.steps.push_back(st); s.variant = "power-loss"; }
        // time passes, and perhaps the author goes on writing
        if (r.chance(1, 2)) {
            st.kind = 'c';
            st.arg = (int64_t)r.below(86400) * 1000000000ll - (r.chance(1, 3) ? 3600ll * 1000000000 : 0);
            s.steps.push_back(st);
        }
        if (i + 1 == crashes && r.chance(1, 3)) {
            Edit e;
            e.path = s.get("main");
            FileSpec* f2 = s.find(e.path);
            if (f2) {
                e.data = f2->data + (r.chance(1, 2) ? "\n\nA later paragraph.\n" : "\n\n[heading Later]\n\nx\n");
                st.kind = 'e';
                st.arg = (int64_t)s.edits.size();
                s.edits.push_back(e);
                s.steps.push_back(st);
            }
        }
    }
    Step st;
    s.steps.push_back(st);
    if (s.variant.empty()) s.variant = "kill";
    return s;
}
static Violation p11_eval(Scenario const& s, Ctx& ctx) {
    // the reference: the same edits, and one undisturbed run with no earlier outputs
    Scenario q = calm(s);
    q.steps.clear();
    for (size_t i = 0; i + 1 < s.steps.size(); ++i)
        if (s.steps[i].kind == 'e') q.steps.push_back(s.steps[i]);
    Step st;
    q.steps.push_back(st);
    if (s.get("format") == "html" && !s.get("out").empty()) {
        // no pages of an earlier run
        std::vector<FileSpec> keep;
        for (auto& f : q.files)
            if (!starts_with(f.path, s.get("out") + "/") || !ends_with(f.path, ".html")) keep.push_back(f);
        q.files = keep;
    }
    else {
        std::vector<FileSpec> keep;
        for (auto& f : q.files) if (!is_output_path(s, f.path)) keep.push_back(f);
        q.files = keep;
    }
    Exec ref = execute(q, ctx);
    if (!ref.r0().ok()) return good();
    Exec x = execute(s, ctx);
    if (x.results.empty()) return good();
    bool crashed = false;
    for (size_t i = 0; i + 1 < x.results.size(); ++i) crashed |= !x.results[i][0].ok();
    ctx.nontrivial = crashed && x.results.size() > 1;
    if (!ctx.nontrivial) return good();
    ProcResult const& last = x.results.back()[0];
    if (last.crashed) return good();
    if (!last.ok())
        return bad("rerun-fails", "after a crash the next run fails: " + last.status() + " " + short_diag(last));
    for (auto& f : ref.end()) {
        if (f.second.type != 'f' || !is_output_path(s, f.first)) continue;
        auto i = x.end().find(f.first);
        std::vector<std::string> one(1, f.first);
        if (i == x.end().end() || i->second.type != 'f' || i->second.data != f.second.data)
            return bad("rerun-differs-" + role_of(s, f.first),
                "after a crash the next run exits 0 but leaves other output than a clean run: " +
                    describe_diff(ref.end(), x.end(), one));
    }
    // inputs survived
    for (auto& f : x.before)
        if (!is_output_path(s, f.first) && f.second.type == 'f') {
            auto i = x.end().find(f.first), j = ref.end().find(f.first);
            if (j != ref.end().end() && (i == x.end().end() || i->second.data != j->second.data))
                return bad("input-lost", "a source changed: " + f.first);
        }
    return good();
}

// ================================================================ P12
static Scenario p12_gen(Rng& r, Ctx& ctx, int index) {
    GenOpts o;
    o.corpus_pct = 20;
    o.many_pages = r.chance(1, 3);
    o.size = (int)r.below(3);
    Scenario s;
    install(s, gen_project(r, o));
    if (r.chance(1, 2)) add_stale_outputs(r, s);
    // bystanders next to everything
    std::set<std::string> dirs;
    for (auto& f : s.files) dirs.insert(dirname_of(f.path));
    if (!s.get("out").empty() && s.get("format") == "html" && r.chance(1, 2)) dirs.insert(s.get("out"));
    static const char* names[] = {"index.html", "index.htm", "main.xml", "main.html", "deps.txt", "notes.txt", "main.qbk~", "out.xml", "a.out", "keep.tmp", "boostbook.css", "HTML.manifest", "main.deps", "quickbook.log"};
    int n = r.range(1, 6);
    std::vector<std::string> dv(dirs.begin(), dirs.end());
    for (int i = 0; i < n; ++i) {
        FileSpec f;
        f.path = lexnorm(r.pick(dv) + "/" + PICK(r, names));
        f.data = "bystander\n";
        if (r.chance(1, 3)) {
            // what editors, careful writers and backups leave next to an output or source
            static const char* after[] = {"~", ".tmp", ".new", ".bak", ".old", ".orig", ".part", ".lock", ".swp", "#"};
            std::vector<std::string> near;
            for (auto k : {"out", "deps", "locs"})
                if (!s.get(k).empty()) near.push_back(s.get(k));
            if (!s.get("out").empty() && s.get("format") == "html")
                for (auto q : {"/index.html", "/intro.html", "/index"}) near.push_back(s.get("out") + q);
            near.push_back(s.files[r.below(s.files.size())].path);
            std::string b = r.pick(near);
            f.path = r.chance(3, 4) ? b + PICK(r, after) : dirname_of(b) + "/" + (r.chance(1, 2) ? "." : "#") + basename_of(b);
            bool at = false;
            for (auto& g : s.files) if (g.path == dirname_of(f.path) && g.type != 'd') at = true;
            if (at) continue;
        }
        if (is_output_path(s, f.path) && s.get("format") != "html") continue;
        if (s.find(f.path)) continue;
        s.files.push_back(f);
    }
    if (r.chance(1, 10) && !s.get("out").empty()) {
        // something else is where an output should go
        FileSpec f;
        f.path = s.get("out");
        f.data = "bystander in the way\n";
        if (s.get("format") != "html") { f.path = dirname_of(f.path); }
        bool any = false;
        for (auto& g : s.files) if (g.path == f.path || starts_with(g.path, f.path + "/")) any = true;
        if (!any && f.path != "/" && s.run0().cwd != f.path && !starts_with(s.run0().cwd, f.path + "/")) s.files.push_back(f);
    }
    gen_noise(r, s.k, s.run0());
    s.run0().eintr = 0;
    Exec ref = execute(s, ctx);
    auto& t = ref.trace;
    int nf = (int)r.below(3);
    static const int errs[] = {EIO, EACCES, ENOENT, ENOSPC, EMFILE, EROFS, EEXIST, EISDIR, ENOTDIR};
    for (int i = 0; i < nf; ++i) {
        auto cand = events(t, [&](Ev const& e) { return e.op != OP_GETENV && e.op != OP_EXIT && e.op != OP_TIME && !e.path.empty(); });
        auto outs = events(t, [&](Ev const& e) { return is_output_path(s, e.path) || e.op == OP_MKDIR; });
        if (cand.empty()) break;
        Fault f = at_event(t, !outs.empty() && r.chance(1, 2) ? r.pick(outs) : r.pick(cand));
        f.err = PICK(r, errs);
        f.count = (int)r.below(2);
        s.faults.push_back(f);
    }
    if (r.chance(1, 6)) {
        size_t k = r.below(t.size());
        Fault f = at_event(t, k);
        f.act = A_CRASH;
        s.faults.push_back(f);
    }
    if (r.chance(1, 8)) s.run0().alloc_fail_at = 1 + (int64_t)r.below((uint64_t)ref.r0().allocs);
    s.variant = s.faults.empty() ? "calm" : "faults";
    return s;
}
static Violation p12_eval(Scenario const& s, Ctx& ctx) {
    // what an undisturbed run changes when there is nothing of an earlier run
    Exec ref = execute(calm(s), ctx);
    std::set<std::string> allowed;
    std::string out = s.get("out"), fm = s.get("format");
    for (auto& f : tree_diff(ref.before, ref.end())) allowed.insert(f);
    if (!out.empty() && fm != "html") allowed.insert(out);
    if (!s.get("deps").empty()) allowed.insert(s.get("deps"));
    if (!s.get("locs").empty()) allowed.insert(s.get("locs"));
    // even the undisturbed run may only touch what was asked for
    for (auto& f : tree_diff(ref.before, ref.end(), true)) {
        bool ok = is_output_path(s, f) || (fm == "html" && !out.empty() && f == out);
        if (!ok) {
            auto i = ref.before.find(f);
            return bad(i != ref.before.end() ? "changed-other-file" : "created-other-file",
                "the run changed " + f + ", which is none of the requested outputs");
        }
        if (fm == "html" && ref.before.count(f) && !ends_with(f, ".html") && f != s.get("deps") && f != s.get("locs"))
            return bad("changed-other-file", "the run changed " + f + ", which is no page of the document");
    }
    Exec x = execute(s, ctx);
    ctx.nontrivial = true;
    for (auto& f : tree_diff(x.before, x.end(), true)) {
        if (allowed.count(f)) continue;
        if (s.variant != "calm" && fm == "html" && (f == out || starts_with(f, out + "/")) && !x.before.count(f)) continue;
        return bad(x.before.count(f) ? "changed-other-file" : "created-other-file",
            "the run changed " + f + ", which is none of the requested outputs");
    }
    for (auto& e : x.trace) {
        std::string p = e.path;
        bool mut = is_open_write(e) || e.op == OP_UNLINK || e.op == OP_RMDIR || e.op == OP_RENAME || e.op == OP_CHMOD ||
                   e.op == OP_TRUNCATE || e.op == OP_UTIME;
        if (!mut || e.err > 0) continue;
        if (e.op == OP_RENAME) {
            if (x.before.count(p) && !allowed.count(p) && !is_output_path(s, p))
                return bad("renamed-other-file", "the run renamed " + p);
            p = e.path2;
        }
        if (x.before.count(p) && !allowed.count(p) && !is_output_path(s, p))
            return bad("opened-other-file", std::string("the run did ") + op_name(e.op) + " on " + p + ", which is none of the requested outputs");
    }
    return good();
}

// ================================================================ P17
static Scenario p17_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus = false;
    o.fmt = 2;
    o.many_pages = true;
    o.includes = r.chance(1, 3);
    o.size = r.chance(1, 3) ? 2 : 1;
    Scenario s;
    install(s, gen_project(r, o));
    while (s.get("out").empty()) { s = Scenario(); install(s, gen_project(r, o)); }
    if (r.chance(1, 3)) add_stale_outputs(r, s);
    gen_noise(r, s.k, s.run0());
    s.run0().eintr = 0;
    Exec ref = execute(calm(s), ctx);
    auto& t = ref.trace;
    auto opens = events(t, [&](Ev const& e) { return ev_output_open(s, e) && starts_with(e.path, s.get("out") + "/"); });
    auto writes = events(t, [&](Ev const& e) { return e.op == OP_WRITE && starts_with(e.path, s.get("out") + "/"); });
    auto closes = events(t, [&](Ev const& e) { return e.op == OP_CLOSE && starts_with(e.path, s.get("out") + "/") && ends_with(e.path, ".html"); });
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(4);
        Fault f;
        if (k == 0 && !closes.empty()) { f = at_event(t, r.pick(closes)); f.act = A_CLOSELOSE; f.err = EIO; f.param = (int64_t)r.below(100); }
        else if (k < 3 && !opens.empty()) { f = at_event(t, r.pick(opens)); f.err = r.chance(1, 2) ? EACCES : EISDIR; }
        else if (!writes.empty()) { f = at_event(t, r.pick(writes)); f.err = r.chance(1, 2) ? EIO : EDQUOT; }
        else continue;
        f.count = 0;
        s.faults.push_back(f);
    }
    s.variant = "page-fault";
    return s;
}
static Violation p17_eval(Scenario const& s, Ctx& ctx) {
    Exec ref = execute(calm(s), ctx);
    if (!ref.r0().ok()) return good();
    Exec x = execute(s, ctx);
    std::set<std::string> hit;
    for (auto& e : x.trace) if (e.injected) hit.insert(e.path);
    if (hit.empty()) return good();
    std::string out = s.get("out");
    int others = 0;
    for (auto& f : ref.end())
        if (f.second.type == 'f' && starts_with(f.first, out + "/") && !hit.count(f.first)) ++others;
    ctx.nontrivial = others > 0;
    ProcResult const& p = x.r0();
    if (p.ok()) {
        auto d = tree_diff(ref.end(), x.end());
        if (d.empty()) return good();
        return bad("exit-0", "a page could not be written but the exit status is 0: " + describe_diff(ref.end(), x.end(), d));
    }
    Violation v = died(p);
    if (v) return v;
    for (auto& f : ref.end()) {
        if (f.second.type != 'f' || hit.count(f.first) || !starts_with(f.first, out + "/")) continue;
        auto i = x.end().find(f.first);
        std::vector<std::string> one(1, f.first);
        if (i == x.end().end() || i->second.data != f.second.data)
            return bad("other-page", "one page could not be written, and another is missing or wrong: " +
                                         describe_diff(ref.end(), x.end(), one));
    }
    for (auto& h : hit)
        if (!contains(diagnostics(p), basename_of(h)))
            return bad("page-not-named", "the page that could not be written (" + h + ") is not named: " + short_diag(p));
    return good();
}

// ================================================================ P18
static Scenario p18_gen(Rng& r, Ctx& ctx, int) {
    GenOpts o;
    o.corpus_pct = 10;
    o.size = 1;
    o.many_pages = r.chance(1, 3);
    o.debug = 1;
    Scenario s;
    Project p = gen_project(r, o);
    while (p.out.empty() || p.corpus) p = gen_project(r, o);
    // no outputs named on the command line survive: each run gets its own
    std::vector<std::string> base;
    for (size_t i = 0; i < p.run.args.size(); ++i) {
        std::string const& a = p.run.args[i];
        static const char* drop[] = {"--output-file", "--output-dir", "--output-deps", "--output-checked-locations", "--output-format", "--output-deps-format"};
        bool d = false;
        for (auto x : drop) {
            if (a == x) { d = true; ++i; break; }
            if (starts_with(a, std::string(x) + "=")) { d = true; break; }
        }
        if (!d) base.push_back(a);
    }
    install(s, p);
    s.groups[0].procs.clear();
    int n = r.range(2, 3);
    for (int i = 0; i < n; ++i) {
        RunCfg c = p.run;
        c.args = base;
        static const char* fm[] = {"boostbook", "onehtml", "html"};
        std::string f = fm[r.below(3)];
        c.args.push_back("--output-format=" + f);
        std::string o2;
        if (f == "html") {
            o2 = fmt("pages%d", i);
            c.args.push_back("--output-dir=" + o2);
        }
        else {
            o2 = fmt("doc%d.out", i);
            c.args.push_back("--output-file=" + o2);
        }
        if (r.chance(1, 2)) c.args.push_back(fmt("--output-deps=deps%d", i)), c.args.push_back("--output-deps-format=checked");
        KernelCfg dummy;
        gen_noise(r, dummy, c);
        c.ambient = r.next() % 100000;
        s.groups[0].procs.push_back(c);
        // the same run alone
        Group g;
        g.procs.push_back(c);
        s.groups.push_back(g);
    }
    { FileSpec d; d.type = 'd'; d.mode = 0755; d.path = p.run.cwd; s.files.push_back(d); }
    int total = 0;
    std::vector<size_t> hot; // where outputs are made
    {
        Scenario q = s;
        Exec e = execute(q, ctx);
        total = (int)e.trace.size();
        hot = events(e.trace, [&](Ev const& v) { return v.op == OP_MKDIR || is_open_write(v) || v.op == OP_RENAME || v.op == OP_UNLINK; });
    }
    int sw = r.range(2, 40);
    if (!hot.empty() && r.chance(1, 2)) {
        // the others run when the first is about to make, or has just made, an output
        Switch w;
        w.at = (int)r.pick(hot) + r.range(-1, 1);
        if (w.at < 0) w.at = 0;
        w.to = 1;
        s.groups[0].switches.push_back(w);
        if (r.chance(1, 2)) sw = 0;
    }
    for (int i = 0; i < sw; ++i) {
        Switch w;
        w.at = (int)r.below((uint64_t)total);
        w.to = (int)r.below((uint64_t)n);
        s.groups[0].switches.push_back(w);
    }
    // one of them may be killed or meet an error
    if (r.chance(1, 3)) {
        Fault f;
        f.proc = 0;
        f.op = r.chance(1, 2) ? OP_WRITE : OP_OPEN;
        f.nth = r.range(1, 8);
        f.act = r.chance(1, 2) ? A_CRASH : A_FAIL;
        f.err = f.act == A_FAIL ? EIO : 0;
        s.faults.push_back(f);
        s.variant = "with-fault";
    }
    else s.variant = "concurrent";
    return s;
}
static Violation p18_eval(Scenario const& s, Ctx& ctx) {
    if (s.groups.size() < 2) return good();
    Scenario q = s;
    q.steps.clear();
    Exec x = execute(q, ctx);
    ctx.nontrivial = true;
    for (size_t i = 0; i < s.groups[0].procs.size() && i + 1 < s.groups.size(); ++i) {
        bool hit = false;
        for (auto& e : x.trace) if (e.proc == i && e.injected && e.err != EINTR && (e.op == OP_READ || e.op == OP_WRITE || e.op == OP_OPEN)) hit = true;
        for (auto& f : s.faults) if (f.proc == (int)i) hit = true;
        if (hit) continue;
        Scenario one = calm(s);
        one.groups[0].procs.assign(1, s.groups[0].procs[i]);
        one.groups[0].switches.clear();
        one.steps.clear();
        Exec ref = execute(one, ctx);
        ProcResult const& a = ref.r0();
        ProcResult const& b = x.results[0][i];
        if (a.status() != b.status() || a.err != b.err || a.out != b.out)
            return bad("outcome", fmt("process %zu ends differently next to others: ", i) + b.status() + " " + short_diag(b) +
                                      " alone: " + a.status() + " " + short_diag(a));
        for (auto& f : tree_diff(ref.before, ref.end())) {
            auto u = ref.end().find(f), v = x.end().find(f);
            std::vector<std::string> l(1, f);
            if (u == ref.end().end() || u->second.type != 'f') continue;
            if (v == x.end().end() || v->second.data != u->second.data)
                return bad("output", fmt("process %zu writes other output next to others: ", i) + describe_diff(ref.end(), x.end(), l));
        }
    }
    return good();
}

// ================================================================ P23
// Run in a build whose every access is checked (build.sh QBSIM_SAN).
static Scenario p23_gen(Rng& r, Ctx& ctx, int index) {
    Scenario s;
    switch (index % 7) {
    case 0: case 1: case 2: case 3:
        s = p09_torn(r, ctx);
        break;
    case 4:
        s = p09_gen(r, ctx, 0);
        break;
    default: {
        GenOpts o;
        o.corpus_pct = 40;
        o.size = (int)r.below(3);
        Project p = gen_project(r, o);
        install(s, p);
        gen_noise(r, s.k, s.run0());
        if (!p.corpus && r.chance(2, 3)) add_mistakes(r, s, p, (int)r.below(6), (int)r.below(6));
        if (r.chance(1, 4)) add_info_oddity(r, s, p);
        if (r.chance(1, 3)) add_docbook(r, s, p, true);
        if (r.chance(1, 3)) {
            // an option with an odd value, or none
            static const char* odd[] = {"-D", "--define", "-I", "--indent", "--linewidth", "--output-format", "--output-deps", "--css-path", "--graphics-path",
                "--boost-root-path", "--xinclude-base", "--image-location", "--output-deps-format", "--input-file", "--output-file", "--output-dir"};
            static const char* val[] = {"", "=", "a", "a=", "=b", "-", "--", "x=[", "[", "/", "\\", "checked,escaped,checked", "9", "0", "100000000", "\xff", "a b", "%", "boost:", "http://a/%"};
            s.run0().args.push_back(PICK(r, odd));
            if (r.chance(5, 6)) s.run0().args.push_back(PICK(r, val));
        }
        if (r.chance(1, 4)) s.run0().args.push_back("-D" + odd_define(r, r.chance(1, 2)));
        s.variant = "documents";
    }
    }
    if (s.run0().heap_mode == 3) s.run0().heap_mode = 0; // memory is never used twice
    return s;
}
static Violation p23_eval(Scenario const& s, Ctx& ctx) {
    Exec x = execute(s, ctx);
    ctx.stats->probe(s.variant + (s.get("format") == "boostbook" ? " boostbook " : " html ") + (x.r0().ok() ? "converted" : "refused"));
    ctx.nontrivial = true;
    ProcResult const& p = x.r0();
    for (auto& l : split_lines(p.err)) {
        size_t a = l.find("ERROR: AddressSanitizer: "), u = l.find(": runtime error: "), g = l.find(": Assertion '");
        if (a != std::string::npos) {
            std::string what = l.substr(a + 25);
            return bad("access-" + what.substr(0, what.find(' ')), "a bad access: " + what.substr(0, what.find(" on address")));
        }
        if (u != std::string::npos && contains(l, ".")) return bad("undefined", "undefined behaviour: " + l.substr(l.rfind('/', u) == std::string::npos ? 0 : l.rfind('/', u) + 1));
        if (g != std::string::npos && p.sig == SIGABRT) return bad("precondition", "a broken precondition: " + l.substr(l.rfind('/', g) == std::string::npos ? 0 : l.rfind('/', g) + 1));
    }
    if (p.exited && p.code == 94) return bad("access", "a bad access: " + short_diag(p));
    if (p.hung) return good(); // that is P09's
    return died(p);
}

void add_io_props(std::vector<Property>& v) {
    v.push_back(Property{"P01",
        "A case is a seeded project and command line plus one output fault (failing open, write, close or mkdir, a torn "
        "write, a disk that fills up, or only short writes); non-trivial when the fault was delivered to an output of the run.",
        p01_gen, p01_eval, 25000, 100000});
    v.push_back(Property{"P02",
        "A case is a seeded project plus one input fault (failing open, read, readdir or stat of a source) or reads cut "
        "into random pieces and interrupted; non-trivial when the fault was delivered.",
        p02_gen, p02_eval, 21000, 100000});
    v.push_back(Property{"P03",
        "A case is a seeded project with outputs of an earlier run in place and an error put into one of its sources; "
        "non-trivial when the run failed.",
        p03_gen, p03_eval, 72000, 100000});
    v.push_back(Property{"P09",
        "A case is a seeded project plus one to four faults at calls the run makes (errors, short transfers, clock jumps, "
        "files changed or removed under the run, a full disk); non-trivial when a fault was delivered.",
        p09_gen, p09_eval, 24000, 120000});
    v.push_back(Property{"P10",
        "A case is a seeded project with the n-th allocation failing (once, a few times, or from then on); non-trivial "
        "when an allocation failed.",
        p10_gen, p10_eval, 32000, 140000});
    v.push_back(Property{"P11",
        "A case is a seeded project whose run is killed at a chosen call (once or twice), perhaps with power loss, time "
        "passing and an edit, and then run again; non-trivial when the kill happened and a later run followed.",
        p11_gen, p11_eval, 11000, 80000});
    v.push_back(Property{"P12",
        "A case is a seeded project surrounded by unrelated files, run with zero to two faults, or killed; every case "
        "compares the whole tree before and after.",
        p12_gen, p12_eval, 14000, 100000});
    v.push_back(Property{"P17",
        "A case is a seeded project with chunked HTML output and persistent faults on one or two pages; non-trivial when a "
        "fault was delivered and the document has other pages.",
        p17_gen, p17_eval, 14000, 80000});
    v.push_back(Property{"P18",
        "A case is two or three processes over the same sources with their own outputs under a seeded schedule with 2-40 "
        "context switches, one of them perhaps killed or failing; every case compares each unharmed process with the same run alone.",
        p18_gen, p18_eval, 7000, 50000});
    v.push_back(Property{"P23",
        "A case is a seeded project (sound, with mistakes, torn, with odd options) with or without system errors, run in a build in which "
        "every memory access and arithmetic operation of the program is checked and freed memory is never reused; every case is one such execution.",
        p23_gen, p23_eval, 12000, 120000});
}

} // namespace qs
