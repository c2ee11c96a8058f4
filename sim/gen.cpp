#include "gen.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>

namespace qs {

// ---------------------------------------------------------------- corpus
namespace {
struct CTest {
    std::string mode, dir, input, gold;
    std::vector<std::string> args;
};
struct Corpus {
    std::map<std::string, std::string> files; // relative path -> content
    std::vector<CTest> tests;
};
Corpus* g_corpus = 0;

bool slurp(const std::string& p, std::string& out) {
    std::ifstream in(p.c_str(), std::ios::binary);
    if (!in) return false;
    std::stringstream ss;
    ss << in.rdbuf();
    out = ss.str();
    return true;
}
void walk(const std::string& root, const std::string& rel, Corpus& c) {
    DIR* d = opendir((root + "/" + rel).c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") names.push_back(n);
    }
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        std::string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (stat((root + "/" + r).c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) walk(root, r, c);
        else slurp(root + "/" + r, c.files[r]);
    }
}
} // namespace

bool load_corpus(const std::string& dir, std::string& error) {
    g_corpus = new Corpus;
    walk(dir, "", *g_corpus);
    auto it = g_corpus->files.find("tests.txt");
    if (it == g_corpus->files.end()) { error = "no corpus at " + dir; return false; }
    for (auto& l : split_lines(it->second)) {
        std::vector<std::string> f;
        size_t i = 0;
        for (;;) {
            size_t j = l.find('\t', i);
            f.push_back(l.substr(i, j == std::string::npos ? j : j - i));
            if (j == std::string::npos) break;
            i = j + 1;
        }
        if (f.size() < 4) continue;
        CTest t;
        t.mode = f[0]; t.dir = f[1] == "." ? "" : f[1]; t.input = f[2]; t.gold = f[3];
        t.args.assign(f.begin() + 4, f.end());
        g_corpus->tests.push_back(t);
    }
    g_corpus->files.erase("tests.txt");
    return true;
}
int corpus_count() { return (int)g_corpus->tests.size(); }

static const std::string CROOT = "/c/quickbook/test";

Project corpus_project(Rng& r, int index, GenOpts const& o) {
    Project p;
    p.corpus = true;
    CTest const* t = 0;
    for (int tries = 0; tries < 200; ++tries) {
        t = &g_corpus->tests[index >= 0 ? (size_t)index % g_corpus->tests.size() : r.below(g_corpus->tests.size())];
        if (index >= 0) break;
        if (o.fmt == 0 && t->mode != "boostbook") continue;
        if (o.fmt == 1 && t->mode != "onehtml") continue;
        if (o.size == 0 && contains(t->input, "manual")) continue;
        if (t->mode == "error" || t->mode == "pass") continue;
        if (contains(t->input, "manual") && !r.chance(1, 6)) continue;
        break;
    }
    std::string d = t->dir.empty() ? CROOT : CROOT + "/" + t->dir;
    p.run.cwd = d;
    p.main_arg = t->input;
    p.main = lexnorm(d + "/" + t->input);
    // files: the test's directory (all of it: globs, includes), images
    for (auto& f : g_corpus->files) {
        bool gold = contains(f.first, ".gold");
        if (gold) continue;
        std::string fd = contains(f.first, "/") ? f.first.substr(0, f.first.rfind('/')) : "";
        bool want = t->dir.empty() ? (fd == "" || starts_with(fd, "html")) : (fd == t->dir || starts_with(fd, t->dir + "/"));
        if (t->dir.empty() && fd == "") {
            // the top directory is large: keep what this input can refer to
            want = f.first == t->input || !ends_with(f.first, ".quickbook") || contains(f.first, "inc") ||
                   f.first == "empty-inc.quickbook";
        }
        if (!t->dir.empty() && fd == "" && (starts_with(f.first, "include-inc") || starts_with(f.first, "stub."))) want = true;
        if (contains(t->input, "xmlbase") && (fd == "include" || starts_with(fd, "xmlbase"))) want = true;
        if (t->dir.empty() && starts_with(fd, "xmlbase")) want = true;
        if (contains(f.first, "LICENSE")) want = false;
        if (!want) continue;
        FileSpec s;
        s.path = CROOT + "/" + f.first;
        s.data = f.second;
        p.files.push_back(s);
    }
    p.format = t->mode == "onehtml" ? "onehtml" : "boostbook";
    p.expect_error = t->mode == "error";
    p.debug = true;
    p.out = d + "/zz.out";
    p.run.args.push_back(t->input);
    p.run.args.push_back("--debug");
    p.run.args.push_back("--output-format=" + p.format);
    p.run.args.push_back("--output-file=zz.out");
    for (auto& a : t->args) {
        if (a == "--expect-errors") continue;
        p.run.args.push_back(a);
    }
    for (size_t i = 0; i + 1 < p.run.args.size(); ++i)
        if (p.run.args[i] == "-I") p.incs.push_back(p.run.args[i + 1]);
    if (t->gold != "-") {
        std::string g = t->dir.empty() ? t->gold : t->dir + "/" + t->gold;
        p.has_gold = true;
        p.gold = g_corpus->files[g];
    }
    if (o.deps > 0 || (o.deps < 0 && r.chance(1, 3))) {
        p.deps = d + "/zz.deps";
        p.deps_checked = o.deps == 2 || r.chance(1, 2);
        p.run.args.push_back("--output-deps=zz.deps");
        if (p.deps_checked) p.run.args.push_back("--output-deps-format=checked");
    }
    return p;
}

// ---------------------------------------------------------------- generated projects
std::string rel_from(const std::string& cwd, const std::string& abs) {
    if (abs == cwd) return ".";
    if (starts_with(abs, cwd + "/")) return abs.substr(cwd.size() + 1);
    return abs;
}

namespace {

struct G {
    Rng& r;
    GenOpts const& o;
    Project& p;
    int tok = 0;
    std::vector<std::string> sect_ids;
    G(Rng& r_, GenOpts const& o_, Project& p_) : r(r_), o(o_), p(p_) {}

    std::string word() {
        static const char* w[] = {"alpha", "beta", "gamma", "delta", "quick", "book", "lorem", "ipsum",
            "dolor", "sit", "amet", "parser", "spirit", "boost", "a", "of", "the", "in", "to", "is",
            "xml", "document", "section", "iterator", "r\xc3\xa9sum\xc3\xa9", "\xe2\x82\xac" "5", "x<y", "a&b",
            "it's", "\"quoted\"", "end.", "comma,"};
        return w[r.below(sizeof w / sizeof *w)];
    }
    std::string token() { return fmt("tok%d", ++tok); }
    std::string text(int n) {
        std::string s = token();
        for (int i = 0; i < n; ++i) {
            s += (i % 11 == 10) ? "\n" : " ";
            s += word();
        }
        return s;
    }
    std::string title(int n) {
        static const char* w[] = {"One", "Two", "Guide", "to", "the", "Reference", "r\xc3\xa9sum\xc3\xa9"};
        std::string s = token();
        for (int i = 0; i < n; ++i) s += std::string(" ") + w[r.below(7)];
        return s;
    }
    std::string inl(int v, int depth = 0) {
        if (o.rich && depth < 2 && r.chance(2, 5)) return rich_inl(v);
        switch (r.below(depth > 1 ? 8 : 20)) {
        case 0: return "*" + token() + "*";
        case 1: return "/" + token() + "/";
        case 2: return "_" + token() + "_";
        case 3: return "=" + token() + "=";
        case 4: return "`int " + token() + " = 0;`";
        case 5: return "[*" + text(2) + "]";
        case 6: return "['" + text(2) + "]";
        case 7: return "[^" + token() + "]";
        case 8: return "[@http://www.example.com/" + token() + "?a=1 " + text(1) + "]";
        case 9: return "[link " + std::string(p.ids.empty() ? "some.id" : r.pick(p.ids)) + " " + text(1) + "]";
        case 10: return "[footnote " + text(3) + (depth ? "" : inl(v, depth + 1)) + "]";
        case 11: return "'''<emphasis>" + token() + "</emphasis>'''";
        case 12: return "[\"" + token() + "]";
        case 13: return o.dates && r.chance(1, 2) ? "__DATE__ __TIME__" : "__FILENAME__";
        case 14: return v >= 106 ? "[role red " + text(1) + "]" : "[~" + token() + "]";
        case 15: return "[$images/" + token() + ".png]";
        case 16: return "[funcref boost::f f()]";
        case 17: return v >= 105 ? "\\u00e9" + token() : token();
        case 18: return "[-" + token() + "]";
        default: return "[@http://e.org]";
        }
    }
    // less common inline markup
    std::string rich_inl(int v) {
        switch (r.below(22)) {
        case 0: return "[? __not_defined_anywhere__ " + text(2) + "]";
        case 1: return v >= 107 ? "[? !__not_defined_anywhere__ " + text(2) + "]" : token();
        case 2: {
            static const char* k[] = {"classref", "memberref", "enumref", "macroref", "headerref", "conceptref", "globalref"};
            return std::string("[") + k[r.below(7)] + " boost::" + token() + (r.chance(1, 2) ? " " + text(1) : "") + "]";
        }
        case 3: return r.chance(1, 2) ? "[python] `def f(): return \"x\"` [c++]" : "[teletype] `x < y` [c++]";
        case 4: return v >= 103 ? "\\[" + token() + "\\] \\*not bold\\*" : token();
        case 5: return "one\\ntwo\\ three";
        case 6: return "[@http://www.example.com/a%20b/~x?q=1&r=" + token() + "#frag]";
        case 7: return p.ids.empty() ? token() : "[link " + r.pick(p.ids) + "]";
        case 8: return "[#anch." + token() + "]" + token();
        case 9: return v >= 105 ? "[$images/" + token() + ".png [width 20px] [align center]]" : token();
        case 10: return "'''<!-- " + token() + " -->'''";
        case 11: return "'''<phrase role=\"a\">" + token() + "</phrase><sbr/>'''";
        case 12: return "'''<?proc " + token() + "?>'''";
        case 13: return "'''&nbsp;&#169;'''";
        case 14: return "*/" + token() + "/* _=" + token() + "=_";
        case 15: return "[*['[^" + token() + "]]]";
        case 16: return "[link " + std::string(r.chance(1, 2) ? "a.b.c " : "missing_id ") + inl(v, 2) + "]";
        case 17: return "[@http://e.org/ " + inl(v, 2) + "]";
        case 18: return token() + "[footnote " + inl(v, 2) + "]";
        case 19: return "\xe2\x80\x9c" + token() + "\xe2\x80\x9d \xf0\x9f\x98\x80";
        case 20: return "``" + token() + "`` `a[b]`";
        default: return "[\"" + inl(v, 2) + "]";
        }
    }
    std::string rich_block(int v) {
        switch (r.below(24)) {
        case 0: return v >= 105 ? "[table:tab" + token() + " " + title(1) + "\n  [[H1] [H2] [H3]]\n  [[a] [" + inl(v, 1) + "]]\n]\n\n" : para(v);
        case 1: return v >= 106 ? "[h3:h" + token() + " " + title(1) + "]\n\n" : para(v);
        case 2: return v >= 106 ? "[block '''<para>" + token() + "</para>''']\n\n" : "'''\n<para>" + token() + "</para>\n'''\n\n";
        case 3: return v >= 106 ? "[itemized_list [" + text(2) + "\n\n" + text(2) + "] [" + inl(v, 1) + "]]\n\n" : para(v);
        case 4: return "[note\n" + text(2) + "\n\n* one " + token() + "\n* two\n]\n\n";
        case 5: return "[caution " + text(2) + "]\n\n[important " + inl(v, 1) + "]\n\n";
        case 6: return "[python]\n\n    def " + token() + "(x):\n        # comment\n        return 'x' + \"y\"\n\n[c++]\n\n";
        case 7: return v >= 107 ? "[!teletype]\n``\n" + token() + " < & >\n``\n\n" : para(v);
        case 8: { // templates within templates
            if (v < 106) return para(v);
            std::string a = fmt("in%d", ++tok), b = fmt("out%d", ++tok);
            return "[template " + a + "[x] <[x]> " + token() + "]\n[template " + b + "[x] (" + "[" + a + " [x]]) and [" + a + " y]]\n\n[" + b + " " + token() + "] [" + a + " " + token() + "]\n\n";
        }
        case 9: { // a macro with markup, used in a title
            std::string m = fmt("__lnk%d__", ++tok);
            return "[def " + m + " [@http://www.example.org/ *" + token() + "*]]\n\n[heading About " + m + "]\n\n" + m + ", " + m + "\n\n";
        }
        case 10: return "[section " + title(1) + "]\n[section " + title(1) + "]\n\n" + para(v) + "[endsect]\n[endsect]\n\n";
        case 11: { // the same id, twice
            std::string id = fmt("dup%d", ++tok);
            return "[section:" + id + " " + title(0) + "]\n\n" + para(v) + "[endsect]\n\n[section:" + id + " " + title(0) + "]\n\n" + text(2) + "\n\n[endsect]\n\n";
        }
        case 12: return "[heading Same title]\n\n[heading Same title]\n\n" + text(1) + "\n\n";
        case 13: return "[heading A very long title that has more than thirty two characters in it " + token() + "]\n\n";
        case 14: return "[variablelist\n  [[" + inl(v, 1) + "] [" + text(2) + "] [" + text(1) + "]]\n]\n\n";
        case 15: return v >= 107 ? "[? !__not_defined_anywhere__ " + text(3) + "] and " + token() + "\n\n" : para(v);
        case 16: return v == 106 ? para(v) : "* a\n\n  " + token() + " more of a\n\n* b\n  # c\n  # d\n    * e " + token() + "\n\n" + text(1) + "\n\n";
        case 17: { // a template with a section
            std::string t = fmt("sec%d", ++tok);
            return v < 103 ? para(v) : "[template " + t + "[x]\n[section [x] " + token() + "]\n\nin [x]\n\n[endsect]\n]\n\n[" + t + " A]\n\n[" + t + " B]\n\n";
        }
        case 18: {
            std::string t = fmt("dt%d", ++tok);
            return o.dates ? "[template " + t + "[] " + token() + " __DATE__ at __TIME__ in __FILENAME__]\n\n[" + t + "]\n\n" : para(v);
        }
        case 19: return "[blurb\n[h4 " + title(1) + "]\n\n" + text(2) + "\n\n    code " + token() + "\n]\n\n";
        case 20: return "``\n" + token() + "(); /* a\n  b */ \"s\\\"t\" 'c' 0x1f 1.5e3 #define X\nclass x : public y {};\n``\n\n";
        case 21: { // recursion that ends
            std::string t = fmt("end%d", ++tok);
            return v >= 105 ? "[template " + t + "[a b] [a] [b]]\n\n[" + t + " [" + t + " 1..2]..[" + t + " 3..4]] " + token() + "\n\n" : para(v);
        }
        case 22: return text(3) + " [/ a comment\n[/ nested] over lines ] " + text(1) + "\n\n";
        default: return "[pre\n" + token() + "\n  *not bold* [*" + token() + "]\n]\n\n";
        }
    }
    std::string para(int v) {
        std::string s = text(r.range(1, o.size == 2 ? 60 : 12));
        int n = r.range(0, 3);
        for (int i = 0; i < n; ++i) s += " " + inl(v) + " " + text(r.range(0, 4));
        return s + ".\n\n";
    }
    std::string block(int v) {
        if (o.rich && r.chance(2, 5)) return rich_block(v);
        switch (r.below(22)) {
        case 0: return "* " + text(3) + "\n* " + inl(v) + "\n  * nested " + token() + "\n  * " + text(2) + "\n* last\n\n" + token() + " after.\n\n";
        case 1: return "# " + text(3) + "\n# " + text(2) + "\n\n" + token() + " after.\n\n";
        case 2: return "    int main() { return " + token() + "(); } // comment\n    \"string\" 'c' 42\n\n";
        case 3: return "``\n#include <x>\nnamespace a { class " + token() + " {}; }\n``\n\n";
        case 4: return "[table " + title(1) + "\n  [[H1] [H2]]\n  [[" + inl(v) + "] [" + text(2) + "]]\n  [[a] [b]]\n]\n\n";
        case 5: return "[variablelist " + title(1) + "\n  [[" + token() + "] [" + text(3) + "]]\n  [[t2] [d2]]\n]\n\n";
        case 6: return "[note " + text(4) + "]\n\n";
        case 7: return "[warning " + text(4) + "]\n\n[tip " + text(2) + "]\n\n";
        case 8: return "[:" + text(5) + "]\n\n";
        case 9: return "[pre\n  " + token() + "\n     keep   this\n]\n\n";
        case 10: return fmt("[h%d ", r.range(2, 5)) + title(2) + "]\n\n";
        case 11: return "[heading " + title(2) + "]\n\n";
        case 12: {
            std::string m = fmt("mac_%d_", ++tok);
            return "[def " + m + " " + text(1) + "]\n\n" + m + " used, " + m + ".\n\n";
        }
        case 13: {
            std::string t = fmt("tpl%d", ++tok);
            return "[template " + t + "[x] " + token() + " [x] after]\n\n[" + t + " " + token() + "]\n\n";
        }
        case 14: {
            std::string t = fmt("btpl%d", ++tok);
            if (v < 103) return para(v);
            return "[template " + t + "[x y]\n[x] body " + token() + "\n\n* [y]\n]\n\n[" + t + (v >= 105 ? " one..two" : " one two") + "]\n\n";
        }
        case 15: return "----\n\n";
        case 16: return "[/ comment " + text(2) + "]\n\n";
        case 17: return "[anchor anc" + token() + "]" + text(2) + "\n\n";
        case 18: {
            if (!o.svg) return para(v);
            return svg_image(v);
        }
        case 19: return "[blurb " + text(5) + "]\n\n";
        case 20: return v >= 106 ? "[ordered_list [" + text(2) + "][" + inl(v) + "]]\n\n" : para(v);
        default: return para(v);
        }
    }
    std::string svg_image(int) {
        std::string n = fmt("pic%d.svg", ++tok);
        FileSpec f;
        f.path = lexnorm(p.image_dir + "/images/" + n);
        f.data = "<?xml version=\"1.0\"?>\n<!-- " + text(r.range(0, 8)) + " -->\n";
        if (o.size == 2 && r.chance(1, 2)) f.data += "<!-- " + text(900) + " -->\n";
        f.data += fmt("<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"%d\" height=\"%d\">\n", r.range(10, 900), r.range(10, 900));
        f.data += "<rect/></svg>\n";
        if (r.chance(7, 8)) p.files.push_back(f);
        return "[$images/" + n + "]\n\n";
    }
    std::string body(int v, int depth, int n) {
        std::string s;
        for (int i = 0; i < n; ++i) {
            int k = (int)r.below(10);
            int lim = o.many_pages ? 5 : 2;
            if (k < lim && depth < 3) {
                std::string id = fmt("s%d", ++tok);
                p.ids.push_back(id);
                s += "[section:" + id + " " + title(1) + "]\n\n" + body(v, depth + 1, r.range(1, 3)) + "[endsect]\n\n";
            }
            else if (k < 6) s += para(v);
            else s += block(v);
        }
        return s;
    }
    void add_file(const std::string& path, const std::string& data) {
        FileSpec f;
        f.path = path;
        f.data = data;
        p.files.push_back(f);
    }
    bool have(const std::string& path) {
        for (auto& f : p.files) if (f.path == path) return true;
        return false;
    }
    std::string snippet_file(bool py, std::vector<std::string>& names) {
        std::string s = py ? "# code\n" : "// code\n#include <vector>\n";
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            std::string name = fmt("snip%d", ++tok);
            names.push_back(name);
            if (py) s += "#[" + name + "\n#`" + text(2) + "\ndef " + token() + "(): pass\n#]\n\n";
            else
                s += "//[" + name + "\n/*`\n" + text(3) + "\n*/\nint " + token() + "(); " +
                     (r.chance(1, 2) ? "/*< callout " + token() + " >*/" : "// plain") + "\n    return 0;\n//]\n\nvoid hidden();\n\n";
        }
        return s;
    }
};

// lexical relative path between two absolute directories/files
std::string relpath(const std::string& fromdir, const std::string& to) {
    std::vector<std::string> a, b;
    auto split = [](const std::string& s, std::vector<std::string>& v) {
        size_t i = 1;
        while (i < s.size()) {
            size_t j = s.find('/', i);
            if (j == std::string::npos) j = s.size();
            v.push_back(s.substr(i, j - i));
            i = j + 1;
        }
    };
    split(fromdir, a);
    split(to, b);
    size_t i = 0;
    while (i < a.size() && i + 1 < b.size() && a[i] == b[i]) ++i;
    std::string r;
    for (size_t k = i; k < a.size(); ++k) r += "../";
    for (size_t k = i; k < b.size(); ++k) r += (k == i ? "" : "/") + b[k];
    return r;
}

int line_of(const std::string& text) {
    int n = 1;
    for (char c : text) if (c == '\n') ++n;
    return n;
}

} // namespace

Project gen_project(Rng& r, GenOpts const& o) {
    if (o.corpus && g_corpus && r.chance(o.corpus_pct, 100)) return corpus_project(r, -1, o);
    Project p;
    G g(r, o, p);
    static const int vers[] = {107, 107, 107, 107, 106, 106, 105, 105, 104, 103, 102, 101};
    do p.version = vers[r.below(12)];
    while (p.version < o.min_version);
    int v = p.version;

    // where things are
    static const char* cwds[] = {"/w", "/w", "/home/u/proj", "/w/build"};
    p.run.cwd = cwds[r.below(4)];
    static const char* mains[] = {"", "", "/doc", "/doc/sub"};
    std::string dir = p.run.cwd + mains[r.below(4)];
    if (r.chance(1, 8)) dir = "/elsewhere/doc";
    p.main = dir + "/main" + (r.chance(1, 4) ? ".quickbook" : ".qbk");
    p.main_arg = r.chance(1, 5) ? p.main : rel_from(p.run.cwd, p.main);
    { FileSpec d; d.type = 'd'; d.mode = 0755; d.path = p.run.cwd; p.files.push_back(d); }

    // output format first: the default image location depends on nothing else
    int fk = o.fmt >= 0 ? o.fmt : (int)r.below(10) < 5 ? 0 : (int)r.below(2) + 1;
    p.format = fk == 0 ? "boostbook" : fk == 1 ? "onehtml" : "html";
    bool img_loc = r.chance(1, 5);
    p.image_dir = img_loc ? dir + "/pics" : dir + "/html";

    // include paths
    int ni = (int)r.below(4);
    static const char* incdirs[] = {"/lib/inc", "/lib/shared", "%/inc1", "%/inc2/deep"};
    std::vector<std::string> incabs;
    for (int i = 0; i < ni; ++i) {
        std::string d = incdirs[r.below(4)];
        d = replace_all(d, "%", p.run.cwd);
        if (std::find(incabs.begin(), incabs.end(), d) != incabs.end()) continue;
        incabs.push_back(d);
        p.incs.push_back(r.chance(1, 3) ? d : rel_from(p.run.cwd, d));
        if (r.chance(7, 8)) { FileSpec f; f.type = 'd'; f.mode = 0755; f.path = d; p.files.push_back(f); }
    }

    // include tree: each unit is a file to write, with a version in force
    struct Unit { std::string path; int v; int depth; bool old; };
    struct Shared { std::string path, call; };
    std::vector<Shared> shared; // used from several places, under several versions
    std::vector<Unit> todo;
    todo.push_back(Unit{p.main, v, 0, v < 106});
    int budget = o.size == 0 ? 2 : o.size == 2 ? 7 : 4;
    if (!o.includes && r.chance(1, 2)) budget = 0;
    int serial = 0;
    for (size_t ti = 0; ti < todo.size(); ++ti) {
        Unit u = todo[ti];
        std::string here = dirname_of(u.path);
        std::string s;
        int uv = u.v;
        if (ti == 0) {
            static const char* types[] = {"article", "library", "book", "chapter", "article", "library", "part", "appendix", "preface"};
            const char* ty = types[r.below(fk == 2 ? 4 : 9)];
            s += fmt("[%s ", ty) + g.title(2) + "\n";
            s += fmt("    [quickbook 1.%d]\n", uv - 100);
            if (r.chance(1, 2)) s += "    [id main_id]\n";
            if (r.chance(1, 2)) s += "    [copyright 2001 2005 Some One]\n";
            if (r.chance(1, 3)) s += "    [authors [One, Some], [Two, Any]]\n";
            if (r.chance(1, 3)) s += "    [license " + g.title(2) + "]\n";
            if (r.chance(1, 4) && (!strcmp(ty, "library"))) s += "    [purpose " + g.title(1) + "]\n";
            if (r.chance(1, 8) && !o.dates) s += "    [last-revision 2011/01/02]\n";
            if (o.rich) {
                if (r.chance(1, 6)) s += r.chance(1, 2) ? "    [source-mode python]\n" : "    [source-mode teletype]\n";
                if (r.chance(1, 6)) s += "    [lang en]\n";
                if (r.chance(1, 6)) s += "    [category cat_" + g.token() + "]\n";
                if (r.chance(1, 6)) s += "    [biblioid isbn 0-0-" + g.token() + "]\n";
                if (r.chance(1, 6)) s += "    [version 1.2]\n";
                if (r.chance(1, 6)) s += "    [dirname dir_" + g.token() + "]\n";
                if (r.chance(1, 6)) s += "    [copyright 2003-2009, 2011 Any One]\n";
                if (r.chance(1, 10) && uv >= 106) s += fmt("    [compatibility-mode 1.%d]\n", r.range(1, 7));
            }
            s += "]\n\n";
        }
        else if (r.chance(1, 3)) {
            // an included file with its own document information
            int nv = uv;
            if (r.chance(1, 3)) nv = vers[r.below(12)];
            if (nv < o.min_version) nv = uv;
            if (u.v < 106 && nv < 106) nv = u.v; // document information is not looked at
            uv = nv;
            if (uv >= 106 && u.v >= 106 && r.chance(1, 4)) s += "[chapter " + g.title(1) + fmt("\n    [quickbook 1.%d]\n]\n\n", uv - 100);
            else if (uv >= 106) s += fmt("[quickbook 1.%d]\n\n", uv - 100);
            else s += "[article " + g.title(1) + fmt("\n    [quickbook 1.%d]\n]\n\n", uv - 100);
        }
        p.versions[u.path] = uv;
        std::set<std::string> imported;
        int parts = r.range(1, o.size == 2 ? 5 : 3);
        for (int q = 0; q < parts; ++q) {
            s += g.body(uv, 0, o.size == 0 ? 1 : r.range(1, 3));
            bool need = ti == 0 && q == 0 && o.includes;
            if (budget > 0 && (need || r.chance(2, 3)) && u.depth < 3) {
                --budget;
                Directive d;
                d.file = u.path;
                int kind = (int)r.below(10);
                if (o.globby && uv >= 107 && r.chance(2, 3)) kind = 8;
                std::string pre;
                if (o.includes && uv >= o.min_version && r.chance(1, 6)) {
                    // a file without a version of its own, used from several places
                    bool code = r.chance(1, 4), defs = !code && r.chance(1, 4);
                    std::string kind = code ? ".cpp" : defs ? "defs.qbk" : "part.qbk";
                    Shared x;
                    for (auto& y : shared) if (ends_with(y.path, kind) && r.chance(3, 4)) x = y;
                    if (x.path.empty()) {
                        x.path = (r.chance(1, 3) && !incabs.empty() ? r.pick(incabs) : r.chance(1, 2) ? here : dir + "/common") + fmt("/sh%d", ++serial) + kind;
                        x.path = lexnorm(x.path);
                        if (code) {
                            std::vector<std::string> names;
                            g.add_file(x.path, g.snippet_file(false, names));
                            x.call = names[0];
                        }
                        else if (defs) {
                            x.call = fmt("shared%d", ++g.tok);
                            g.add_file(x.path, "[template " + x.call + "[] " + g.text(3) + (r.chance(1, 2) ? " [*bold] \\n" : "") + "]\n\n[def __" + x.call + "__ " + g.token() + "]\n\n");
                        }
                        else {
                            std::string c = g.body(101, 2, r.range(1, 2));
                            if (contains(c, "[template ") || contains(c, "[def ") || contains(c, " more of ")) c = g.para(101);
                            g.add_file(x.path, c);
                        }
                        shared.push_back(x);
                    }
                    // templates of files of old versions are not scoped
                    if (((code || defs) && (u.old || uv < 106)) || imported.count(x.path) || x.path == u.path) continue;
                    if (code || defs) imported.insert(x.path);
                    d.kind = code ? 'm' : 'i';
                    d.path = rel_from(here, x.path);
                    for (auto& y : incabs) if (dirname_of(x.path) == y && r.chance(1, 2)) d.path = x.path.substr(y.size() + 1);
                    if (r.chance(1, 8)) d.path = x.path;
                    s += (code || defs ? "[import " : "[include ") + d.path + "]\n\n";
                    d.line = line_of(s) - 2;
                    p.dirs.push_back(d);
                    if (code || defs) s += "[" + x.call + "]\n\n";
                    if (defs) s += "With __" + x.call + "__.\n\n";
                    if (u.depth < 3 && r.chance(1, 2)) {
                        // and again below
                        std::string t = here + fmt("/again%d.qbk", ++serial);
                        int nv = r.chance(2, 3) ? vers[r.below(12)] : uv;
                        if (nv < o.min_version || uv < 106) nv = uv;
                        g.add_file(t, (nv < 106 && uv >= 106 ? "[article " + g.title(1) + fmt("\n[quickbook 1.%d]\n]\n\n", nv - 100) : uv >= 106 ? fmt("[quickbook 1.%d]\n\n", nv - 100) : std::string()) + g.para(nv) +
                                          (code || defs ? nv >= 106 && uv >= 106 ? "[import " + rel_from(here, x.path) + "]\n\n[" + x.call + "]\n\n" : std::string() : "[include " + rel_from(here, x.path) + "]\n\n"));
                        p.versions[t] = nv;
                        s += fmt("[include again%d.qbk]\n\n", serial);
                        d.kind = 'i';
                        d.path = fmt("again%d.qbk", serial);
                        d.line = line_of(s) - 2;
                        p.dirs.push_back(d);
                    }
                    continue;
                }
                if (uv >= 106 && o.template_includes && r.chance(1, 6)) {
                    // a file of templates that include other files
                    std::string name = fmt("defs%d.qbk", ++serial);
                    std::string target;
                    size_t where = r.below(incabs.size() + 2);
                    std::string sub = r.chance(1, 2) ? fmt("sub%d/", (int)r.below(3)) : "";
                    if (where < 2 || incabs.empty()) target = here + "/" + sub + name;
                    else target = incabs[where - 2] + "/" + sub + name;
                    target = lexnorm(target);
                    std::vector<std::string> calls;
                    auto definitions = [&](const std::string& target, const std::string& nested) {
                    int dv = r.chance(2, 3) ? 107 : 106;
                    std::string def = fmt("[quickbook 1.%d]\n\n", dv - 100);
                    if (r.chance(1, 3)) {
                        // is expanded where it is defined
                        std::string mn = fmt("__fn%d__", ++g.tok);
                        def += "[def " + mn + fmt(" MARK=%d __FILENAME__ MEND]\n\n", g.tok);
                        calls.push_back(mn);
                    }
                    if (r.chance(1, 4)) {
                        // is not included by an import
                        std::string what = fmt("not%d.qbk", ++serial);
                        g.add_file(lexnorm((r.chance(1, 4) && !incabs.empty() ? r.pick(incabs) : dirname_of(target)) + "/" + what), "NOT INCLUDED " + g.token() + (r.chance(1, 2) ? "\n\n[endsect]\n" : "\n"));
                        def += "[include " + what + "]\n\n";
                    }
                    if (!nested.empty()) def += "[import " + nested + "]\n\n";
                    int nt = r.range(1, 3);
                    for (int i = 0; i < nt; ++i) {
                        std::string tn = fmt("held%d", ++g.tok);
                        std::string what;
                        if (dv >= 107 && o.globs && r.chance(1, 3)) {
                            std::string gd = fmt("hg%d", ++serial);
                            int n = r.range(0, 3);
                            for (int q2 = 0; q2 < n; ++q2) {
                                std::string base = r.chance(1, 4) && !incabs.empty() ? r.pick(incabs) : r.chance(1, 4) ? dirname_of(target) : here;
                                std::string t = lexnorm(base + "/" + gd + fmt("/h%d.qbk", ++serial));
                                g.add_file(t, "");
                                todo.push_back(Unit{t, dv, 3, true});
                            }
                            what = gd + "/*.qbk";
                        }
                        else {
                            what = fmt("held%d.qbk", ++serial);
                            std::string base = r.chance(1, 5) && !incabs.empty() ? r.pick(incabs) : here;
                            std::string t = lexnorm(base + "/" + what);
                            g.add_file(t, "");
                            todo.push_back(Unit{t, dv, 3, true});
                            // beside the template: not where it is looked for
                            if (dirname_of(target) != here && r.chance(1, 2) && !g.have(lexnorm(dirname_of(target) + "/" + what))) g.add_file(lexnorm(dirname_of(target) + "/" + what), "DECOY " + g.token() + "\n");
                        }
                        def += std::string((size_t)r.below(3), '\n') + (dv < 107 || r.chance(1, 3) ? "[template " + tn + "[]\n[include " + what + "]\n]\n" : "[template " + tn + "[] [include " + what + "]]\n");
                        if (r.chance(1, 3)) def += "\n" + g.text(2) + "\n\n";
                        calls.push_back(tn);
                        if (r.chance(1, 5)) calls.push_back(tn);
                    }
                    g.add_file(target, def);
                    p.versions[target] = dv;
                    };
                    std::string nested;
                    if (r.chance(1, 4)) {
                        nested = (r.chance(1, 3) ? fmt("sub%d/", (int)r.below(3)) : std::string()) + fmt("more%d.qbk", ++serial);
                        std::string base = r.chance(1, 3) && !incabs.empty() ? r.pick(incabs) : dirname_of(target);
                        definitions(lexnorm(base + "/" + nested), "");
                    }
                    definitions(target, nested);
                    s += "[import " + sub + name + "]\n\n";
                    for (auto& tn : calls) {
                        if (r.chance(1, 3)) s += g.para(uv);
                        s += starts_with(tn, "__") ? tn + "\n\n" : "[" + tn + "]\n\n";
                    }
                    continue;
                }
                if (kind < 6 || (uv < 106 && kind < 7)) {
                    // a quickbook file: found locally, in a sub directory, or on the include path
                    std::string name = fmt("inc%d.qbk", ++serial);
                    if (o.oddnames && r.chance(1, 10) && uv < 107) name = fmt("sp ace%d.qbk", serial);
                    else if (o.oddnames && r.chance(1, 10) && uv >= 106) name = fmt("\xc3\xa9t\xc3\xa9%d.qbk", serial);
                    std::string sub = r.chance(1, 3) ? fmt("sub%d/", (int)r.below(3)) : "";
                    if (r.chance(1, 4)) {
                        // many files of the same name
                        sub = fmt("u%d/", serial);
                        name = "page.qbk";
                    }
                    std::string target;
                    size_t where = r.below(incabs.size() + 2);
                    if (where < 2 || incabs.empty()) target = here + "/" + sub + name;
                    else target = incabs[where - 2] + "/" + sub + name;
                    d.path = sub + name;
                    if (r.chance(1, 8)) { d.path = target; }
                    else if (r.chance(1, 8) && where < 2) { d.path = "./" + d.path; }
                    // decoys later on the search path must lose
                    if (!incabs.empty() && r.chance(1, 2)) {
                        size_t w = r.below(incabs.size());
                        if (where < 2 || w > where - 2) {
                            std::string decoy = incabs[w] + "/" + sub + name;
                            if (!g.have(decoy)) g.add_file(decoy, "DECOY " + g.token() + "\n");
                        }
                    }
                    if (r.chance(1, 6) && uv >= 105) {
                        std::string id = fmt("inc_id%d", serial);
                        pre = "[include:" + id + " " + d.path + "]";
                    }
                    else pre = "[include " + d.path + "]";
                    d.kind = 'i';
                    target = lexnorm(target);
                    if (!g.have(target)) todo.push_back(Unit{target, uv, u.depth + 1, u.old || uv < 106}), g.add_file(target, "");
                    // the same file a second time
                    if (r.chance(1, 6) && uv >= 106) {
                        s += pre + "\n\n";
                        d.line = line_of(s) - 2;
                        p.dirs.push_back(d);
                    }
                }
                else if (kind < 8) {
                    bool py = r.chance(1, 4);
                    std::string name = fmt("code%d%s", ++serial, py ? ".py" : r.chance(1, 2) ? ".cpp" : ".hpp");
                    std::vector<std::string> names;
                    std::string target = r.chance(1, 2) || incabs.empty() ? here + "/" + name : r.pick(incabs) + "/" + name;
                    g.add_file(lexnorm(target), g.snippet_file(py, names));
                    d.path = name;
                    d.kind = 'm';
                    pre = "[import " + name + "]";
                    s += pre + "\n\n";
                    d.line = line_of(s) - 2;
                    p.dirs.push_back(d);
                    for (auto& n : names)
                        if (r.chance(3, 4)) s += "[" + n + "]\n\n";
                    continue;
                }
                else if (kind == 8 && uv >= 107 && o.globs) {
                    // a glob over a directory, here and on the include path
                    std::string gd = fmt("gl%d", ++serial);
                    int n = r.range(0, 4);
                    bool deep = r.chance(1, 3);
                    // the same name (or the same path) below each of several directories
                    int shape = deep && r.chance(o.globby ? 2 : 1, 3) ? r.range(1, 3) : 0;
                    bool code = !shape && std::find(incabs.begin(), incabs.end(), here) == incabs.end() && r.chance(1, 6);
                    std::vector<std::string> names;
                    for (int i = 0; i < n; ++i) {
                        std::string base = r.chance(1, 3) && !incabs.empty() ? r.pick(incabs) : here;
                        std::string nm = fmt("g%d.qbk", ++serial);
                        if (shape) {
                            std::string t = lexnorm(base + "/" + gd + fmt("/d%d/", (int)r.below(4)) + (shape == 1 ? std::string("same.qbk") : shape == 3 ? std::string("in/same.qbk") : "in/" + nm));
                            if (g.have(t)) continue;
                            todo.push_back(Unit{t, uv, 3, true});
                            g.add_file(t, "");
                            continue;
                        }
                        if (code && r.chance(4, 5)) {
                            g.add_file(lexnorm(base + "/" + gd + "/" + (deep ? fmt("d%d/", (int)r.below(3)) : std::string()) + fmt("g%d.cpp", serial)), g.snippet_file(false, names));
                            continue;
                        }
                        if (o.oddnames && r.chance(1, 12)) nm = fmt("t\tab%d.qbk", serial);
                        else if (o.oddnames && r.chance(1, 12)) nm = fmt("e+=%d.qbk", serial);
                        else if (r.chance(1, 6)) nm = fmt("skip%d.txt", serial);
                        std::string t = lexnorm(base + "/" + gd + "/" + (deep ? fmt("d%d/", (int)r.below(3)) : std::string()) + nm);
                        if (ends_with(nm, ".qbk")) {
                            todo.push_back(Unit{t, uv, 3, true});
                            g.add_file(t, "");
                        }
                        else g.add_file(t, "not included\n");
                    }
                    if (r.chance(1, 4)) {
                        FileSpec f; f.type = 'd'; f.mode = 0755; f.path = here + "/" + gd + "/dir.qbk";
                        p.files.push_back(f);
                    }
                    static const char* pats[] = {"*.qbk", "*.q?k", "?*.qbk", "\\[a-z\\]*.qbk"};
                    d.path = gd + "/" + (deep ? r.chance(1, 2) ? "*/" : "d?/" : "") + pats[r.below(4)];
                    if (shape == 1) d.path = gd + (r.chance(1, 2) ? "/*/same.qbk" : "/d?/same.qbk");
                    else if (shape == 3) d.path = gd + (r.chance(1, 2) ? "/*/in/same.qbk" : "/d?/in/same.qbk");
                    else if (shape == 2) d.path = gd + (r.chance(1, 2) ? "/*/in/" : "/d?/in/") + pats[r.below(4)];
                    else if (code) d.path = gd + "/" + (deep ? "*/" : "") + "*.cpp";
                    d.glob = true;
                    if (r.chance(1, 4)) d.path = "g\\[l\\]" + d.path.substr(2);
                    pre = (code ? "[import " : "[include ") + d.path + "]";
                    if (code) {
                        d.kind = 'm';
                        s += pre + "\n\n";
                        d.line = line_of(s) - 2;
                        p.dirs.push_back(d);
                        for (auto& x : names)
                            if (r.chance(1, 2)) s += "[" + x + "]\n\n";
                        continue;
                    }
                }
                else {
                    d.kind = 'x';
                    d.path = r.chance(1, 2) ? fmt("x%d.xml", ++serial) : "../up/" + g.token() + ".xml";
                    pre = "[xinclude " + d.path + "]";
                }
                s += pre + "\n\n";
                d.line = line_of(s) - 2;
                p.dirs.push_back(d);
            }
        }
        if (ti == 0 && o.many_pages) {
            // sections of the document itself are pages
            int n = r.range(2, 6);
            for (int i = 0; i < n; ++i) {
                std::string id = fmt("pg%d", ++g.tok);
                p.ids.push_back(id);
                s += (r.chance(3, 4) ? "[section:" + id + " " : std::string("[section ")) + g.title(1) + "]\n\n" + g.body(uv, r.chance(1, 3) ? 1 : 2, r.range(1, 2)) + "[endsect]\n\n";
            }
        }
        if (o.bulk && r.chance(1, 2)) {
            // more than fits into a buffer
            int n = r.range(60, 400);
            for (int i = 0; i < n; ++i) {
                s += g.text(12) + "\n";
                if (r.chance(1, 8)) s += "\n";
            }
            s += "\n";
        }
        if (o.size == 2 && r.chance(1, 10)) {
            // very many lines
            int n = r.range(1000, 9000);
            switch (r.below(3)) {
            case 0: s += std::string((size_t)n, '\n'); break;
            case 1: s += "[/ comment" + std::string((size_t)n, '\n') + "]\n\n"; break;
            default: s += "``\nint " + g.token() + ";" + std::string((size_t)n / 6, '\n') + "int last;\n``\n\n"; break;
            }
            s += g.text(2) + "\n\n";
        }
        // line terminators other than \n
        if (r.chance(1, 10)) s = replace_all(s, "\n", "\r\n");
        if (r.chance(1, 12)) s = "\xef\xbb\xbf" + s;
        if (ti == 0) g.add_file(u.path, s);
        else
            for (auto& f : p.files)
                if (f.path == u.path) f.data = s;
    }

    // the command line
    std::vector<std::string> a;
    auto flag = [&](const char* n, const std::string& val) {
        if (r.chance(1, 2)) a.push_back(std::string("--") + n + "=" + val);
        else { a.push_back(std::string("--") + n); a.push_back(val); }
    };
    if (fk != 0 || r.chance(1, 3)) flag("output-format", p.format);
    p.debug = o.debug >= 0 ? o.debug == 1 : r.chance(1, 2);
    if (p.debug) a.push_back("--debug");
    int dp = o.deps >= 0 ? o.deps : (r.chance(1, 3) ? 1 : 0);
    std::string main_stem = p.main.substr(0, p.main.rfind('.'));
    if (fk == 2) {
        if (r.chance(1, 2)) {
            p.out = dir + "/html";
            if (r.chance(1, 2)) { FileSpec d; d.type = 'd'; d.mode = 0755; d.path = p.out; p.files.push_back(d); }
        }
        else {
            p.out = p.run.cwd + "/" + (r.chance(1, 2) ? "pages" : "out");
            if (r.chance(1, 3)) { FileSpec d; d.type = 'd'; d.mode = 0755; d.path = p.out; p.files.push_back(d); }
            flag("output-dir", r.chance(1, 3) ? p.out : rel_from(p.run.cwd, p.out));
        }
    }
    else if (r.chance(3, 4)) {
        std::string od = r.chance(1, 3) ? p.run.cwd + "/outdir" : p.run.cwd;
        { FileSpec d; d.type = 'd'; d.mode = 0755; d.path = od; p.files.push_back(d); }
        p.out = od + "/result" + (fk == 0 ? ".xml" : ".html");
        flag("output-file", r.chance(1, 3) ? p.out : rel_from(p.run.cwd, p.out));
    }
    else p.out = main_stem + (fk == 0 ? ".xml" : ".html");
    for (auto& i : p.incs) {
        if (r.chance(1, 2)) { a.push_back("-I"); a.push_back(i); }
        else flag("include-path", i);
    }
    if (img_loc) flag("image-location", rel_from(p.run.cwd, p.image_dir));
    if (dp) {
        p.deps = p.run.cwd + "/deps.txt";
        flag("output-deps", r.chance(1, 4) ? p.deps : "deps.txt");
        p.deps_checked = dp == 2 || r.chance(1, 2);
        p.deps_escaped = r.chance(1, 4);
        std::string f = p.deps_checked ? (p.deps_escaped ? "checked,escaped" : "checked") : p.deps_escaped ? "escaped" : "";
        if (!f.empty()) flag("output-deps-format", f);
    }
    if (dp && r.chance(1, 4)) {
        p.locs = p.run.cwd + "/locs.txt";
        flag("output-checked-locations", "locs.txt");
    }
    if (dp) {
        // an alternative output only suppresses the default output
        bool specified = false;
        for (auto& x : a) if (starts_with(x, "--output-format") || starts_with(x, "--output-file") || starts_with(x, "--output-dir")) specified = true;
        if (!specified) p.out.clear();
    }
    if (r.chance(1, 8)) a.push_back("--no-pretty-print");
    if (r.chance(1, 10)) flag("indent", fmt("%d", r.range(0, 6)));
    if (r.chance(1, 10)) flag("linewidth", fmt("%d", r.range(30, 100)));
    if (r.chance(1, 10)) a.push_back("--no-self-linked-headers");
    if (r.chance(1, 12)) a.push_back("--ms-errors");
    if (r.chance(1, 10)) { a.push_back("-D"); a.push_back("cmd_macro=value " + g.token()); }
    if (fk != 0 && r.chance(1, 4)) flag("boost-root-path", r.chance(1, 2) ? "http://www.boost.org/" : "/boost");
    if (fk != 0 && r.chance(1, 6)) flag("css-path", "styles/x.css");
    if (r.chance(1, 12)) { // --xinclude-base
        flag("xinclude-base", rel_from(p.run.cwd, dir));
    }
    // the input goes anywhere between the options
    std::vector<std::vector<std::string>> units;
    for (size_t i = 0; i < a.size(); ++i) {
        std::vector<std::string> u(1, a[i]);
        bool takes = (a[i] == "-I" || a[i] == "-D") ||
                     (starts_with(a[i], "--") && !contains(a[i], "=") && a[i] != "--debug" && a[i] != "--no-pretty-print" &&
                         a[i] != "--no-self-linked-headers" && a[i] != "--ms-errors");
        if (takes && i + 1 < a.size()) u.push_back(a[++i]);
        units.push_back(u);
    }
    size_t at = r.below(units.size() + 1);
    for (size_t i = 0; i <= units.size(); ++i) {
        if (i == at) p.run.args.push_back(p.main_arg);
        if (i < units.size()) p.run.args.insert(p.run.args.end(), units[i].begin(), units[i].end());
    }
    return p;
}

void add_links(Rng& r, Scenario& s, bool absolute) {
    std::string main = s.get("main");
    int n = 0;
    auto link = [&](const std::string& at, const std::string& to) {
        FileSpec l;
        l.type = 'l';
        l.mode = 0777;
        l.path = at;
        l.data = absolute || r.chance(1, 2) ? to : rel_from(dirname_of(at), to);
        s.files.push_back(l);
    };
    // directories
    std::set<std::string> dirs;
    for (auto& f : s.files)
        if (f.type == 'f') {
            std::string d = dirname_of(f.path), b = basename_of(d);
            if ((starts_with(b, "gl") || starts_with(b, "hg") || (starts_with(b, "d") && b.size() == 2)) && !starts_with(main, d + "/")) dirs.insert(d);
        }
    std::set<std::string> moved;
    for (auto& d : dirs) {
        if (!r.chance(1, 6)) continue;
        bool inside = false;
        for (auto& m : moved) if (starts_with(d, m + "/") || starts_with(m, d + "/")) inside = true;
        if (inside) continue;
        std::string to = fmt("/srv/store%d/dir", n++);
        for (auto& f : s.files)
            if (starts_with(f.path, d + "/")) f.path = to + f.path.substr(d.size());
            else if (f.path == d) f.path = to;
        moved.insert(d);
        link(d, to);
    }
    size_t count = s.files.size();
    for (size_t i = 0; i < count; ++i) {
        FileSpec f = s.files[i];
        if (f.type != 'f' || f.path == main || starts_with(f.path, "/srv/store") || !r.chance(1, 5)) continue;
        if (!ends_with(f.path, ".qbk") && !ends_with(f.path, ".svg") && !ends_with(f.path, ".cpp") && !ends_with(f.path, ".hpp") && !ends_with(f.path, ".py")) continue;
        std::string to = fmt("/srv/store%d/", n++) + (r.chance(1, 2) ? "real.dat" : basename_of(f.path));
        if (r.chance(1, 12)) to += "/nothing"; // leads nowhere
        else { s.files[i].path = to; link(f.path, to); continue; }
        s.files[i].path = "/srv/lost/" + basename_of(f.path) + fmt("%d", n);
        link(f.path, to);
    }
}
void gen_noise(Rng& r, KernelCfg& k, RunCfg& c) {
    if (r.chance(2, 3)) k.dir_seed = r.next() % 100000 + 1;
    k.dt_unknown = r.chance(1, 4);
    k.ino_base = 100 + r.below(100000);
    if (r.chance(1, 2)) {
        static const int64_t m[] = {64, 200, 511, 1000, 2048, 4096};
        c.read_max = r.chance(1, 12) ? r.range(1, 7) : m[r.below(6)];
        c.chunk_seed = r.chance(1, 2) ? r.next() % 100000 + 1 : 0;
    }
    if (r.chance(1, 2)) {
        static const int64_t m[] = {100, 256, 512, 1000, 4096};
        c.write_max = r.chance(1, 12) ? r.range(1, 7) : m[r.below(5)];
        c.chunk_seed = r.chance(1, 2) ? r.next() % 100000 + 1 : 0;
    }
    if (r.chance(1, 4)) c.eintr = r.range(2, 10);
    c.heap_mode = (int)r.below(4);
    c.heap_seed = r.next() % 100000;
    c.ambient = r.next() % 1000000;
    c.env_seed = r.chance(1, 2) ? r.next() % 1000000 + 1 : 0;
    static const char* tzs[] = {"UTC0", "<+0530>-5:30", "<-11>11", "<+14>-14", "EST5EDT,M3.2.0,M11.1.0"};
    (void)tzs;
    static const char* locs[] = {"C", "C.UTF-8", "tr_TR.UTF-8", "de_DE", "POSIX"};
    if (r.chance(1, 2)) c.env.push_back(std::make_pair(std::string("LC_ALL"), std::string(locs[r.below(5)])));
    if (r.chance(1, 3)) c.env.push_back(std::make_pair(std::string("HOME"), std::string("/home/") + (r.chance(1, 2) ? "a" : "b")));
}

void install(Scenario& s, Project const& p) {
    s.files = p.files;
    s.groups.assign(1, Group());
    s.groups[0].procs.push_back(p.run);
    s.opt["main"] = p.main;
    s.opt["out"] = p.out;
    s.opt["format"] = p.format;
    s.opt["deps"] = p.deps;
    s.opt["locs"] = p.locs;
    if (p.has_gold) s.opt["gold"] = p.gold;
    if (p.debug) s.opt["debug"] = "1";
    if (p.expect_error) s.opt["expect_error"] = "1";
}

} // namespace qs
