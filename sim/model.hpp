// qbsim: a reference model of the command line, the dependency file and of what a
// conversion looks for.
#pragma once
#include "props.hpp"

namespace qs {

// ---------------------------------------------------------------- the command line, as the manual describes it
struct Cmd {
    std::string main;
    std::vector<std::string> incs;
    std::string image_dir, deps, locs, xbase;
    bool checked = false, escaped = false, debug = false;
};
static Cmd parse_cmd(RunCfg const& c) {
    Cmd m;
    bool img = false;
    auto abs = [&](const std::string& p) { return lexnorm(!p.empty() && p[0] == '/' ? p : c.cwd + "/" + p); };
    for (size_t i = 0; i < c.args.size(); ++i) {
        std::string a = c.args[i], v;
        bool has = false;
        if (starts_with(a, "--") && contains(a, "=")) {
            v = a.substr(a.find('=') + 1);
            a = a.substr(0, a.find('='));
            has = true;
        }
        static const char* flags[] = {"--debug", "--no-pretty-print", "--no-self-linked-headers", "--ms-errors", "--strict", "--expect-errors", "--no-output"};
        bool flag = false;
        for (auto f : flags) if (a == f) flag = true;
        if (a == "--debug") m.debug = true;
        if (flag) continue;
        if (a[0] == '-') {
            if (!has) { if (i + 1 >= c.args.size()) break; v = c.args[++i]; }
            if (a == "-I" || a == "--include-path") m.incs.push_back(abs(v));
            else if (a == "--image-location") m.image_dir = abs(v), img = true;
            else if (a == "--xinclude-base") m.xbase = abs(v);
            else if (a == "--output-deps") m.deps = abs(v);
            else if (a == "--output-checked-locations") m.locs = abs(v);
            else if (a == "--output-deps-format") m.checked = contains(v, "checked"), m.escaped = contains(v, "escaped");
        }
        else m.main = abs(a);
    }
    if (!img) m.image_dir = lexnorm(dirname_of(m.main) + "/html");
    return m;
}

// ---------------------------------------------------------------- dependency files
struct Deps {
    std::map<std::string, char> files;                     // absolute -> '+' or '-'
    std::map<std::string, std::set<std::string>> globs;    // pattern -> matches
    std::set<std::string> plain;                           // plain format
    std::string error;
    std::set<std::string> both; // listed as there under one spelling and as missing under another
    bool operator==(Deps const& o) const { return files == o.files && globs == o.globs && plain == o.plain; }
};
static bool unescape_path(const std::string& s, std::string& o) {
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char)s[i];
        if (c != '\\') { o += (char)c; continue; }
        if (++i >= s.size()) return false;
        switch (s[i]) {
        case '\\': o += '\\'; break;
        case 'a': o += '\a'; break;
        case 'b': o += '\b'; break;
        case 't': o += '\t'; break;
        case 'n': o += '\n'; break;
        case 'v': o += '\v'; break;
        case 'f': o += '\f'; break;
        case 'r': o += '\r'; break;
        default: {
            if (i + 2 >= s.size()) return false;
            int v = 0;
            for (int k = 0; k < 3; ++k) {
                char d = s[i + (size_t)k];
                if (d < '0' || d > '7') return false;
                v = v * 8 + (d - '0');
            }
            i += 2;
            o += (char)v;
        }
        }
    }
    return true;
}
static Deps parse_deps(const std::string& text, bool checked, bool escaped, const std::string& cwd) {
    Deps d;
    if (!text.empty() && text[text.size() - 1] != '\n') d.error = "the last line is not ended";
    std::string glob;
    size_t at = 0;
    while (at < text.size()) {
        size_t e = text.find('\n', at);
        if (e == std::string::npos) e = text.size();
        std::string l = text.substr(at, e - at);
        at = e + 1;
        char sign = '+';
        if (checked) {
            if (l.size() < 3 || (l[0] != '+' && l[0] != '-' && l[0] != 'g') || l[1] != ' ') { d.error = "strange line " + quote(l); continue; }
            sign = l[0];
            l = l.substr(2);
        }
        std::string p;
        if (escaped) {
            for (unsigned char c : l) if (c < 16 || c == 127) d.error = "unescaped control character in " + quote(l);
            if (!unescape_path(l, p)) d.error = "bad escape in " + quote(l);
        }
        else p = l;
        if (p.empty()) { d.error = "empty path"; continue; }
        p = lexnorm(p[0] == '/' ? p : cwd + "/" + p);
        if (!checked) { d.plain.insert(p); continue; }
        if (sign == 'g') { glob = p; d.globs[glob]; }
        else if (!glob.empty() && sign == '+') d.globs[glob].insert(p);
        else if (!glob.empty()) d.error = "a missing file after the globs";
        else if (d.files.count(p) && d.files[p] != sign) { d.both.insert(p); d.files[p] = '+'; }
        else d.files[p] = sign;
    }
    return d;
}

// ---------------------------------------------------------------- globs, evaluated on a tree
static bool glob_name(const char* p, const char* pe, const char* s, const char* se) {
    if (p == pe) return s == se;
    if (*p == '*') {
        for (const char* k = s;; ++k) {
            if (glob_name(p + 1, pe, k, se)) return true;
            if (k == se) return false;
        }
    }
    if (s == se) return false;
    if (*p == '?') return glob_name(p + 1, pe, s + 1, se);
    if (*p == '[') {
        const char* q = p + 1;
        bool neg = q != pe && (*q == '^' || *q == '!'), hit = false;
        if (neg) ++q;
        const char* first = q;
        while (q != pe && (*q != ']' || q == first)) {
            unsigned char lo = (unsigned char)*q, hi = lo;
            if (q + 2 < pe && q[1] == '-' && q[2] != ']') { hi = (unsigned char)q[2]; q += 2; }
            if ((unsigned char)*s >= lo && (unsigned char)*s <= hi) hit = true;
            ++q;
        }
        if (q == pe) return false;
        return hit != neg && glob_name(q + 1, pe, s + 1, se);
    }
    if (*p == '\\' && p + 1 != pe) ++p;
    return *p == *s && glob_name(p + 1, pe, s + 1, se);
}
static bool glob_chars(const std::string& s) { return s.find_first_of("*?[") != std::string::npos; }
// where a path leads, through symbolic links; empty when nowhere
static std::string real_path(Tree const& t, const std::string& p, int depth = 0) {
    std::string cur;
    for (size_t i = 1; i < p.size();) {
        size_t j = p.find('/', i);
        if (j == std::string::npos) j = p.size();
        if (j > i) {
            std::string next = cur + "/" + p.substr(i, j - i);
            auto it = t.find(next);
            if (it == t.end()) return "";
            if (it->second.type == 'l') {
                if (depth > 20 || it->second.data.empty()) return "";
                next = real_path(t, lexnorm(it->second.data[0] == '/' ? it->second.data : cur + "/" + it->second.data), depth + 1);
                if (next.empty()) return "";
            }
            cur = next;
        }
        i = j + 1;
    }
    return cur.empty() ? "/" : cur;
}
static FileSpec const* follow(Tree const& t, const std::string& p) {
    auto d = t.find(p);
    if (d != t.end() && d->second.type != 'l') return &d->second;
    std::string r = real_path(t, p);
    if (r.empty()) return 0;
    auto i = t.find(r);
    return i == t.end() ? 0 : &i->second;
}
// dir: as it is spelled
static void glob_walk(Tree const& t, const std::string& dir, const std::string& pat, std::set<std::string>& out) {
    size_t sl = pat.find('/');
    std::string head = pat.substr(0, sl), rest = sl == std::string::npos ? "" : pat.substr(sl + 1);
    auto visit = [&](const std::string& full, FileSpec const& spec) {
        FileSpec const* to = spec.type == 'l' ? follow(t, full) : &spec;
        if (!to) return;
        FileSpec const& f = *to;
        if (sl == std::string::npos) { if (f.type == 'f') out.insert(full); }
        else if (f.type == 'd') glob_walk(t, full, rest, out);
    };
    std::string base = dir == "/" ? "/" : dir + "/";
    if (!glob_chars(head)) {
        std::string full = base + replace_all(head, "\\", "");
        if (FileSpec const* f = follow(t, full)) visit(full, *f);
        return;
    }
    std::string real = real_path(t, dir);
    if (real.empty()) return;
    if (real != "/") real += "/";
    for (auto i = t.lower_bound(real); i != t.end() && starts_with(i->first, real); ++i) {
        std::string name = i->first.substr(real.size());
        if (name.empty() || contains(name, "/")) continue;
        if (glob_name(head.data(), head.data() + head.size(), name.data(), name.data() + name.size())) visit(base + name, i->second);
    }
}
// all regular files a pattern below the root matches
static std::set<std::string> glob_tree(Tree const& t, const std::string& pattern) {
    std::set<std::string> r;
    glob_walk(t, "/", pattern.substr(1), r);
    return r;
}

// ---------------------------------------------------------------- the model: what a conversion looks for
// one reference to another file, as it was met
struct Ref {
    std::string file;  // absolute path of the file that contains it
    int line;
    char kind;         // i include, m import, s image, n include that is only looked up, e nothing
    std::string path;  // as written (unescaped)
    bool glob;
    std::vector<std::string> targets; // what it leads to
};
struct Model {
    // a path relative to the search location it was found in, element by element
    typedef std::vector<std::string> Abs;
    Tree const& t;
    Cmd const& c;
    Deps d;
    bool error = false, odd = false;
    int units = 0;
    std::vector<Ref> refs;            // in the order they are met
    std::set<std::string> unreadable; // loading these fails
    std::vector<std::string> parsed;  // files whose content was taken, in order
    // where the text of a file starts (+) and ends (-), and what it is called there
    struct Mark { char kind; std::string file, name; };
    std::vector<Mark> marks;
    static std::string joined(Abs const& a) {
        std::string s;
        for (auto& e : a) s += (s.empty() || s == "/" ? "" : "/") + e;
        return s;
    }
    Model(Tree const& t_, Cmd const& c_) : t(t_), c(c_) {}
    bool exists(const std::string& p) const { return follow(t, p) != 0; }
    bool probe(const std::string& p) {
        bool e = exists(p);
        char& s = d.files[p];
        if (s != '+') s = e ? '+' : '-';
        return e;
    }
    static int version_in(const std::string& text, int dflt) {
        size_t i = text.find("[quickbook 1.");
        // only in the document information at the top
        size_t lim = text.find("\n\n");
        if (i == std::string::npos || (lim != std::string::npos && i > lim)) return dflt;
        return 100 + atoi(text.c_str() + i + 13);
    }
    static Abs elements(const std::string& p) {
        Abs v;
        if (!p.empty() && p[0] == '/') v.push_back("/");
        size_t i = 0;
        while (i < p.size()) {
            size_t j = p.find('/', i);
            if (j == std::string::npos) j = p.size();
            if (j > i) v.push_back(p.substr(i, j - i));
            i = j + 1;
        }
        return v;
    }
    static Abs below(Abs const& here, const std::string& p) {
        Abs v = here;
        if (!v.empty()) v.pop_back(); // the directory of the including file
        Abs e = elements(p);
        v.insert(v.end(), e.begin(), e.end());
        return v;
    }
    // includes held by templates
    struct Held { std::string file; int line, ver; std::string text; };
    std::map<std::string, Held> held;
    static std::string unified(std::string s) {
        if (starts_with(s, "\xef\xbb\xbf")) s = s.substr(3);
        return replace_all(replace_all(s, "\r\n", "\n"), "\r", "\n");
    }
    std::map<std::string, Mark> macros; // that say where they were defined
    // what an include or import on line l leads to
    bool lookup(const std::string& l, const std::string& at, int line, int ver, const std::string& here, Abs const& as, size_t off,
        std::vector<std::string>& targets, std::vector<std::pair<Abs, size_t>>& as_of) {
            bool inc = starts_with(l, "[include");
            size_t sp = l.find(' ');
            size_t e = l.rfind(']');
            if (sp == std::string::npos || e == std::string::npos || e < sp) { odd = true; return false; }
            std::string p = l.substr(sp + 1, e - sp - 1);
            if (ver >= 107) p = replace_all(replace_all(p, "\\[", "["), "\\]", "]");
            if (ver >= 107 && starts_with(p, "[empty")) {
                // a template that expands to nothing
                Ref r = {at, line, 'e', "", false, std::vector<std::string>()};
                refs.push_back(r);
                error = true;
                return false;
            }
            if (ver >= 107 && glob_chars(p)) {
                std::vector<std::string> bases(1, here);
                bases.insert(bases.end(), c.incs.begin(), c.incs.end());
                // in the order of the path below the search location, then of the locations
                std::set<std::pair<Abs, std::pair<size_t, std::string>>> order;
                for (size_t b = 0; b < bases.size(); ++b) {
                    std::string pat = lexnorm(bases[b] + "/" + p);
                    auto& m = d.globs[pat];
                    for (auto& f : glob_tree(t, pat)) {
                        m.insert(f);
                        std::string rest = f.substr(bases[b] == "/" ? 1 : bases[b].size() + 1);
                        order.insert(b == 0 ? std::make_pair(below(as, rest), std::make_pair(off, f)) : std::make_pair(elements(rest), std::make_pair(b, f)));
                    }
                }
                for (auto& o : order) {
                    targets.push_back(o.second.second);
                    as_of.push_back(std::make_pair(o.first, o.second.first));
                }
            }
            else if (p.empty()) { odd = true; return false; }
            else if (p[0] == '/') {
                if (probe(lexnorm(p))) {
                    targets.push_back(lexnorm(p));
                    as_of.push_back(std::make_pair(elements(p), (size_t)0));
                }
                else error = true;
            }
            else {
                std::string q = lexnorm(here + "/" + p);
                bool found = probe(q);
                if (found) as_of.push_back(std::make_pair(below(as, p), off));
                for (size_t i = 0; !found && i < c.incs.size(); ++i) {
                    q = lexnorm(c.incs[i] + "/" + p);
                    found = probe(q);
                    if (found) as_of.push_back(std::make_pair(elements(p), i + 1));
                }
                if (found) targets.push_back(q);
                else error = true;
            }
            Ref r = {at, line, inc ? 'i' : 'm', p, ver >= 107 && glob_chars(p), targets};
            refs.push_back(r);
            return true;
    }
    void definitions(const std::string& path, int ver, int depth, Abs const& as, size_t off) {
        if (depth > 30 || ++units > 400) { odd = true; return; }
        if (unreadable.count(path)) { error = true; return; }
        FileSpec const* it = follow(t, path);
        if (!it || it->type != 'f') return;
        std::string s = unified(it->data);
        ver = version_in(s, ver);
        std::string name;
        int line = 0;
        for (auto& l : split_lines(s)) {
            ++line;
            if (!name.empty()) { // a body that starts on the line after
                if (starts_with(l, "[include ")) { Held h = {path, line, ver, l}; held[name] = h; }
                name.clear();
                continue;
            }
            if (starts_with(l, "[def __fn")) {
                Mark m = {'=', path, joined(as)};
                macros[l.substr(5, l.find(' ', 5) - 5)] = m;
                continue;
            }
            if (starts_with(l, "[include ") || starts_with(l, "[import ")) {
                std::vector<std::string> targets;
                std::vector<std::pair<Abs, size_t>> as_of;
                if (!lookup(l, path, line, ver, dirname_of(path), as, off, targets, as_of)) continue;
                if (starts_with(l, "[include ")) { refs.back().kind = 'n'; continue; } // looked up, but not read by an import
                for (size_t k = 0; k < targets.size(); ++k) {
                    if (unreadable.count(targets[k])) error = true;
                    else if (!error && ends_with(targets[k], ".qbk")) definitions(targets[k], ver, depth + 1, as_of[k].first, as_of[k].second);
                }
                continue;
            }
            size_t i = l.find("[]");
            if (!starts_with(l, "[template held") || i == std::string::npos) continue;
            if (i + 2 == l.size()) { name = l.substr(10, i - 10); continue; }
            if (!ends_with(l, "]]")) continue;
            Held h = {path, line, ver, l.substr(i + 3, l.size() - i - 4)};
            held[l.substr(10, i - 10)] = h;
        }
    }
    void file(const std::string& path, int ver, int depth, Abs const& as, size_t off) {
        if (depth > 30 || ++units > 400) { odd = true; return; }
        if (unreadable.count(path)) { error = true; return; }
        FileSpec const* it = follow(t, path);
        if (!it || it->type != 'f') { odd = true; return; }
        std::string s = unified(it->data);
        const int file_ver = version_in(s, ver);
        std::string here = dirname_of(path);
        parsed.push_back(path);
        { Mark m = {'+', path, joined(as)}; marks.push_back(m); }
        int file_line = 0;
        for (auto& file_l : split_lines(s)) {
            ++file_line;
            std::string l = file_l, at = path;
            int line = file_line;
            ver = file_ver;
            if (starts_with(l, "[held") && ends_with(l, "]")) {
                auto h = held.find(l.substr(1, l.size() - 2));
                if (h == held.end()) continue;
                l = h->second.text;
                at = h->second.file;
                line = h->second.line;
                ver = h->second.ver;
            }
            if (starts_with(l, "__fn")) {
                auto k = macros.find(l);
                if (k != macros.end()) marks.push_back(k->second);
                continue;
            }
            bool inc = starts_with(l, "[include ") || starts_with(l, "[include:");
            bool imp = starts_with(l, "[import ");
            if (!inc && !imp) {
                size_t i = l.find("[$");
                while (i != std::string::npos) {
                    size_t e = l.find(']', i);
                    if (e == std::string::npos) { odd = true; break; }
                    std::string p = l.substr(i + 2, e - i - 2);
                    if (ends_with(p, ".svg")) {
                        std::string q = lexnorm(p[0] == '/' ? p : c.image_dir + "/" + p);
                        Ref r = {path, line, 's', p, false, std::vector<std::string>()};
                        if (probe(q)) r.targets.push_back(q);
                        if (unreadable.count(q)) error = true;
                        refs.push_back(r);
                    }
                    i = l.find("[$", e);
                }
                continue;
            }
            std::vector<std::string> targets;
            std::vector<std::pair<Abs, size_t>> as_of; // of each target
            if (!lookup(l, at, line, ver, here, as, off, targets, as_of)) continue;
            for (size_t k = 0; k < targets.size(); ++k) {
                if (unreadable.count(targets[k])) error = true;
                else if (inc && !error) file(targets[k], ver, depth + 1, as_of[k].first, as_of[k].second);
                else if (imp && !error && ends_with(targets[k], ".qbk")) definitions(targets[k], ver, depth + 1, as_of[k].first, as_of[k].second);
            }
        }
        { Mark m = {'-', path, joined(as)}; marks.push_back(m); }
    }
    void run() {
        probe(c.main);
        file(c.main, 101, 0, Abs(1, basename_of(c.main)), 0);
        for (auto& f : d.files) if (f.second == '+') d.plain.insert(f.first);
        for (auto& g : d.globs) d.plain.insert(g.second.begin(), g.second.end());
    }
};

} // namespace qs
