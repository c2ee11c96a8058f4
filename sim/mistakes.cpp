// qbsim: documents with mistakes of every kind the converter knows, and odd but legal pieces.
#include "gen.hpp"

namespace qs {

namespace {
void put(std::vector<FileSpec>& v, const std::string& path, const std::string& data) {
    for (auto& f : v) if (f.path == path) return;
    FileSpec f;
    f.path = path;
    f.data = data;
    v.push_back(f);
}
std::string code_with_mistakes(Rng& r, int i, std::vector<std::string>* names) {
    std::string s = "// code\n\n";
    int n = r.range(1, 4);
    for (int k = 0; k < n; ++k) {
        std::string name = fmt("bad%d_%d", i, k);
        std::string in = r.chance(1, 3) ? "" : "int a;\n";
        switch (r.below(6)) {
        case 0: s += "int before;\n//]\nint after;\n\n"; break; // nothing to end
        case 1: s += "//[" + name + "\nint a;\n//[" + name + "x\nint b;\n\n"; if (names) names->push_back(name); break; // not closed
        case 2: s += "//[" + name + "\n" + in + "//]\n//[" + name + "\n" + (r.chance(1, 2) ? in : "int b;\n") + "//]\n\n"; if (names) names->push_back(name); break; // twice
        case 3: s += "//[" + name + "\n/*`\n[unclosed\n*/\n" + in + "//]\n\n"; if (names) names->push_back(name); break;
        case 4: s += "//[" + name + "\nint a; /*< [note unclosed >*/\nint b; /*<< [endsect] >>*/\n//]\n\n"; if (names) names->push_back(name); break;
        default: s += "//[" + name + "\n/*`\nfine *text*\n*/\nint a(); /*< called >*/\n//]\n\n"; if (names) names->push_back(name); break;
        }
    }
    return s;
}
} // namespace

int mistake_kinds() { return 39; }

std::string mistake(Rng& r, int v, int i, const std::string& dir, std::vector<FileSpec>& extra, int kind) {
    if (kind < 0) kind = (int)r.below((uint64_t)mistake_kinds());
    switch (kind) {
    case 0: return "[endsect]\n\n";
    case 1: return fmt("[include gone%d.qbk]\n\n", i);
    case 2: return fmt("[import gone%d.cpp]\n\n", i);
    case 3: return fmt("[section:es%d t]\n\n[endsect:other%d]\n\n", i, i);
    case 4: return fmt("[section t%d]\n\n[endsect:other%d]\n\n", i, i);
    case 5: return fmt("[template dup%d[] a]\n[template dup%d[] b]\n\n", i, i);
    case 6: return fmt("[template two%d[a b] [a] [b]]\n\n[two%d]\n\n", i, i);
    case 7: return fmt("[template one%d[] x]\n\n[one%d a..b..c]\n\n", i, i);
    case 8: return fmt("[template rec%d[] x[rec%d]]\n\n[rec%d]\n\n", i, i, i);
    case 9: return fmt("[template ra%d[] x [rb%d]]\n[template rb%d[] y [ra%d]]\n\n[ra%d]\n\n", i, i, i, i, i);
    case 10: return fmt("[template rp%d[x] [x] [rp%d [x]]]\n\n[rp%d z]\n\n", i, i, i);
    case 11: return "[include *.qb\\]\n\n";
    case 12: return "[xinclude *.xml]\n\n";
    case 13: return fmt("[include sub\\x%d.qbk]\n\n", i);
    case 14: return "[include]\n\n";
    case 15: return "[xinclude]\n\n";
    case 16: return fmt("[section:bad&id%d t]\n\n[endsect]\n\n", i);
    case 17: return fmt("text [#$bad%d] text\n\n", i);
    case 18: return fmt("[heading:$h%d t]\n\n", i);
    case 19: return fmt("[$images\\pic%d.png]\n\n", i);
    case 20: return "# one\n* two\n# three\n\n";
    case 21: return fmt("[template blk%d[]\nblock\n]\n\n[link [blk%d] x]\n\n", i, i);
    case 22: return fmt("[template ms%d[]\n[section x]\n\ntext\n]\n\n[ms%d]\n\n", i, i);
    case 23: return fmt("[template me%d[]\n[endsect]\n]\n\n[section s]\n[me%d]\n[endsect]\n\n", i, i);
    case 24: return fmt("[template es%d[a] [a]]\n\n[`es%d one..two]\n\n", i, i);
    case 25: return fmt("[template bad%d[] [unclosed%d ]\n\n[bad%d]\n\n", i, i, i);
    case 26: return fmt("[nosuchthing%d text]\n\n", i);
    case 27: return "[template]\n\n";
    case 28: return fmt("[def]\n\n[template t%d\n\n]\n\n", i);
    case 29: return "* a\n\n  paragraph in a list\n\n* b\n\n";
    case 30: {
        std::string n = fmt("bad%d.cpp", i);
        std::vector<std::string> names;
        put(extra, dir + "/" + n, code_with_mistakes(r, i, &names));
        std::string s = "[import " + n + "]\n\n";
        for (auto& x : names) if (r.chance(1, 2)) s += "[" + x + (r.chance(1, 5) ? " argument" : "") + "]\n\n";
        return s;
    }
    case 31: {
        std::string n = fmt("bad%d.qbk", i);
        put(extra, dir + "/" + n, fmt("[quickbook 1.%d]\n\n", v >= 106 ? v - 100 : 7) + "text\n\n" + mistake(r, v, i + 1000000, dir, extra, (int)r.below(30)));
        return "[include " + n + "]\n\n";
    }
    case 32: {
        std::string n = fmt("meta%d.qbk", i);
        static const char* infos[] = {"[quickbook 9.9]", "[copyright 2010-2001 X]", "[xmlbase no/such/dir]", "[xmlbase *]", "[id $x]", "[quickbook 1.6]\n[quickbook 1.7]", "[last-revision]", "[authors [one]]", "[source-mode pascal]", "[purpose [footnote x]]"};
        put(extra, dir + "/" + n, std::string("[article t\n[quickbook 1.7]\n") + infos[r.below(10)] + "\n]\n\ntext\n\n");
        return "[include " + n + "]\n\n";
    }
    case 34: return fmt("[template px%d[] [section:px%d b]]\n\ntext\n\n[px%d]\n\n", i, i, i);
    case 35: return fmt("[template py%d[] [endsect]]\n\n[section s]\n\n[py%d]\n\n[endsect]\n\n", i, i);
    case 36: {
        // document information with a directory that is none
        std::string n = fmt("base%d.qbk", i);
        put(extra, dir + "/" + n, std::string("[article t\n[quickbook 1.7]\n[xmlbase ") + (r.chance(1, 2) ? "no/such/dir" : n) + "]\n]\n\ntext\n\n");
        return "[include " + n + "]\n\n";
    }
    case 37: {
        // a file that ends too early
        std::string n = fmt("syn%d.qbk", i);
        static const char* ends[] = {"[section", "[section x", "[table", "[include", "[def x", "[template x", "[block", "[table x\n[[a]", "[variablelist", "[heading"};
        put(extra, dir + "/" + n, fmt("[quickbook 1.%d]\n\ntext\n\n", r.range(6, 7)) + ends[r.below(10)]);
        return "[include " + n + "]\n\n";
    }
    default: return fmt("[template esc%d[] '''unclosed]\n\n[esc%d]\n\n", i, i);
    }
}

// the same piece, where it is nested in something that saves and restores what is being built
std::string wrapped(Rng& r, int v, int i, const std::string& piece) {
    std::string p = piece;
    while (!p.empty() && p[p.size() - 1] == '\n') p.erase(p.size() - 1);
    switch (r.below(14)) {
    case 0: return "[note\n" + p + "\n]\n\n";
    case 1: return "[table t\n[[h][i]]\n[[\n" + p + "\n][b]]\n]\n\n";
    case 2: return fmt("[template wrap%d[]\n", i) + p + fmt("\n]\n\n[wrap%d]\n\n", i);
    case 3: return fmt("[section:w%d t]\n\n", i) + p + "\n\n[endsect]\n\n";
    case 4: return "[? !__nowhere__\n" + p + "\n]\n\n";
    case 5: return "[variablelist t\n[[a][\n" + p + "\n]]\n]\n\n";
    case 6: return v >= 106 ? "[itemized_list [\n" + p + "\n]]\n\n" : piece;
    case 7: return fmt("[template arg%d[x]\n[x]\n]\n\n[arg%d\n", i, i) + p + "\n]\n\n";
    case 8: return "[:\n" + p + "\n]\n\n";
    case 9: return fmt("[template wa%d[] [wb%d]]\n[template wb%d[]\n", i, i, i) + p + fmt("\n]\n\n[wa%d]\n\n", i);
    case 10: return "[blurb\n" + p + "\n]\n\n";
    default: return piece;
    }
}

// legal, or nearly so, and unusual
// raw DocBook, mostly shaped as it should be
static std::string db_text(Rng& r) {
    static const char* t[] = {"", "word", "a few words", "&amp;", "&lt;tag&gt;", "a text that is long enough not to fit into a small string", "\n", " ", "caf\xc3\xa9", "12345"};
    return t[r.below(10)];
}
static std::string db_id(Rng& r, int& ids, bool def) {
    return fmt("db%d", def && !r.chance(1, 8) ? ids++ : (int)r.below((size_t)std::max(1, ids + 2)));
}
static std::string db_attrs(Rng& r, const std::string& n, int& ids, bool in_text) {
    std::string s;
    if (r.chance(1, 4) || ((n == "co" || n == "callout" || n == "anchor") && !r.chance(1, 8))) s += " id=\"" + db_id(r, ids, true) + "\"";
    if (((n == "link" || n == "xref") && !r.chance(1, 8)) || r.chance(1, 30)) s += " linkend=\"" + db_id(r, ids, false) + "\"";
    if (n == "co" && !r.chance(1, 8)) { s += " linkends=\"" + db_id(r, ids, false); if (r.chance(1, 4)) s += " " + db_id(r, ids, false); s += "\""; }
    if (n == "callout" && !r.chance(1, 8)) { s += " arearefs=\"" + db_id(r, ids, false); if (r.chance(1, 4)) s += " " + db_id(r, ids, false); s += "\""; }
    if (n == "ulink" && !r.chance(1, 8)) {
        static const char* u[] = {"http://a/b", "", "boost:/libs/x", "boost:", "../a/./b//c", "#x", "a b", "/", "mailto:x", "%zz"};
        s += std::string(" url=\"") + u[r.below(10)] + "\"";
    }
    if (n == "imagedata" && !r.chance(1, 8)) { static const char* u[] = {"a.png", "", "http://a/b.png", "../x.svg", "images/c.png", "/abs.png"}; s += std::string(" fileref=\"") + u[r.below(6)] + "\""; }
    if (n == "bridgehead" && !r.chance(1, 6)) { static const char* u[] = {"sect1", "sect2", "sect6", "sect", "", "sect99", "x1"}; s += std::string(" renderas=\"") + u[r.below(7)] + "\""; }
    if (r.chance(1, 6) || n == "phrase" || n == "emphasis") { static const char* u[] = {"bold", "alt", "keyword", "", "strong", "underline", "strikethrough", "comment"}; s += std::string(" role=\"") + (in_text && r.chance(1, 2) ? "alt" : u[r.below(8)]) + "\""; }
    if (((n == "othercredit" || n == "corpcredit") && !r.chance(1, 4)) || r.chance(1, 40)) { static const char* u[] = {"contributor", "translator", "", "a class with quite a long name"}; s += std::string(" class=\"") + u[r.below(4)] + "\""; }
    return s;
}
static std::string db_element(Rng& r, int depth, int& ids, const char* want, bool in_text = false) {
    static const char* all[] = {"para", "para", "phrase", "emphasis", "link", "ulink", "footnote", "bridgehead", "sidebar", "blockquote", "itemizedlist", "orderedlist", "variablelist",
        "table", "informaltable", "inlinemediaobject", "mediaobject", "calloutlist", "programlisting", "co", "anchor", "quote", "simpara", "subscript", "superscript", "literal", "code",
        "classname", "section", "chapter", "note", "warning", "tip", "caution", "important", "sbr", "title", "callout", "listitem", "term", "row", "entry", "tbody", "unknownelement",
        "articleinfo", "sectioninfo", "replaceable", "simplelist", "macronname", "xref", "varlistentry", "thead", "tgroup", "textobject", "imageobject", "legalnotice"};
    static const struct { const char* n; const char* kids[6]; } shapes[] = {
        {"itemizedlist", {"listitem", "listitem", "title"}}, {"orderedlist", {"listitem", "listitem", "title"}}, {"listitem", {"para", "simpara"}},
        {"variablelist", {"title", "varlistentry", "varlistentry"}}, {"varlistentry", {"term", "listitem"}},
        {"table", {"title", "tgroup"}}, {"informaltable", {"tgroup"}}, {"tgroup", {"colspec", "thead", "tbody"}}, {"thead", {"row"}}, {"tbody", {"row", "row"}}, {"row", {"entry", "entry"}},
        {"inlinemediaobject", {"imageobject", "textobject"}}, {"mediaobject", {"imageobject", "textobject"}}, {"imageobject", {"imagedata"}}, {"textobject", {"phrase"}},
        {"calloutlist", {"callout", "callout"}}, {"callout", {"para"}}, {"programlisting", {"co", "phrase", "co"}}, {"footnote", {"para", "simpara"}}, {"blockquote", {"para", "attribution"}},
        {"section", {"title", "para", "section"}}, {"chapter", {"title", "section"}}, {"sidebar", {"title", "para"}}, {"note", {"para"}}, {"simplelist", {"member", "member"}},
        {"articleinfo", {"author", "othercredit", "copyright", "legalnotice", "corpauthor", "authorgroup"}}, {"sectioninfo", {"copyright", "corpcredit", "pubdate", "editor", "collab"}},
        {"author", {"firstname", "surname"}}, {"editor", {"firstname", "surname"}}, {"othercredit", {"firstname", "surname", "contrib"}}, {"authorgroup", {"author", "editor"}},
        {"copyright", {"year", "year", "holder"}}, {"legalnotice", {"para", "title"}}, {"collab", {"collabname"}}};
    std::string n = want ? want : all[r.below(sizeof all / sizeof *all)];
    std::string s = "<" + n + db_attrs(r, n, ids, in_text);
    if (n == "sbr" || n == "anchor" || n == "co" || n == "imagedata" || n == "colspec" || r.chance(1, 14)) return s + "/>";
    s += ">";
    bool shaped = false;
    for (auto& sh : shapes)
        if (n == sh.n) {
            shaped = true;
            for (int k = 0; k < 6 && sh.kids[k]; ++k) {
                if (r.chance(1, 6)) continue;
                if (r.chance(1, 2)) s += r.chance(1, 10) ? db_text(r) : "\n";
                if (depth < 7) s += db_element(r, depth + 1, ids, r.chance(1, 14) ? 0 : sh.kids[k], n == "textobject");
            }
        }
    if (!shaped) {
        if (!r.chance(1, 5)) s += db_text(r);
        for (int k = (int)r.below(depth > 5 ? 1 : 3); k > 0; --k) s += db_element(r, depth + 1, ids, 0) + db_text(r);
    }
    return s + "</" + n + ">";
}
std::string raw_docbook(Rng& r) {
    int ids = (int)r.below(3), n = r.range(1, 4);
    std::string s = "'''";
    static const char* special[] = {"inlinemediaobject", "variablelist", "table", "calloutlist", "footnote", "programlisting", "sectioninfo", "informaltable"};
    for (int i = 0; i < n; ++i) s += db_element(r, 0, ids, r.chance(1, 2) ? special[r.below(8)] : 0) + (r.chance(1, 3) ? "\n" : "");
    return s + "'''\n\n";
}
// ids that have to be cut, renamed or escaped
static std::string odd_ids(Rng& r, int v, int serial) {
    std::string s;
    static const char* stems[] = {"1234567890123456789012345678901234567890", "abcdefghijklmnopqrstuvwxyz0123456789", "abcdefghijklmnopqrstuvwxyzabcde9", "a1", "9", "_", "a__b", "A-B.c", "caf\xc3\xa9",
        "x.y.z", ".x", "x.", "1.2.3", "..", "a.12345678901234567890123456789012"};
    std::string id = stems[r.below(sizeof stems / sizeof *stems)];
    if (r.chance(1, 2)) id = id.substr(0, (size_t)r.range(1, 40));
    for (int k = r.range(1, 12); k > 0; --k) {
        switch (r.below(5)) {
        case 0: s += "[#" + id + "]\n\n"; break;
        case 1: s += "[heading " + id + "]\n\n"; break;
        case 2: s += v >= 106 ? "[h2:" + id + " Title]\n\n" : "[h2 " + id + "]\n\n"; break;
        case 3: s += "[section:" + id + " Title " + fmt("%d", serial) + "]\n\ntext\n\n[endsect]\n\n"; break;
        default: s += "[section " + id + "]\n\n[table T" + id + "\n[[a][b]]\n]\n\n[endsect]\n\n"; break;
        }
        if (r.chance(1, 6)) id += (char)('0' + r.below(10));
    }
    return s + "[link " + id + " here]\n\n";
}
std::string oddity(Rng& r, int v, int i, int kind) {
    (void)v;
    switch (kind < 0 ? (int)r.below(38) : kind) {
    case 0: return "'''<?pi a?b?c?>''' text\n\n";
    case 1: return "'''<?" + std::string(r.below(4), '?') + "?>'''\n\n";
    case 2: return "'''<!-- a -- b --->'''\n\n";
    case 3: return "'''<a b='1' c=\"&lt;\" d=x e><f/></a >'''\n\n";
    case 4: return "'''<![CDATA[ <x> ]] > ]]>'''\n\n";
    case 5: return "'''<unclosed><b></unclosed>'''\n\n";
    case 6: return "'''</nothing>'''\n\n";
    case 7: return "'''<'''\n\n";
    case 8: return "'''<a'''\n\n'''<a b'''\n\n";
    case 9: return "'''<a b=\"'''\n\n";
    case 10: return "'''&amp'''; '''& x''' '''&#;''' '''&#xzz;'''\n\n";
    case 11: return "'''<?xml version=\"1.0\"?><!DOCTYPE x [<!ENTITY y \"z\">]>'''\n\n";
    case 12: return fmt("[template r0%d[] [r1%d][r1%d]]\n[template r1%d[] [r2%d][r2%d]]\n[template r2%d[] z]\n\n[r0%d]\n\n", i, i, i, i, i, i, i, i);
    case 13: return fmt("[def __a%d__ x__b%d__]\n[def __b%d__ y __a%d__]\n\n__a%d__ __b%d__\n\n", i, i, i, i, i, i);
    case 14: { int n = r.range(5, 60); std::string s; for (int k = 0; k < n; ++k) s += "[*"; s += "x"; for (int k = 0; k < n; ++k) s += "]"; return s + "\n\n"; }
    case 15: { int n = r.range(3, 40); std::string s; for (int k = 0; k < n; ++k) s += std::string((size_t)k * 2, ' ') + "* " + fmt("l%d", k) + "\n"; return s + "\n"; }
    case 16: { int n = r.range(3, 15); std::string s; for (int k = 0; k < n; ++k) s += fmt("[section:n%d_%d t]\n\n", i, k); for (int k = 0; k < n; ++k) s += "[endsect]\n\n"; return s; }
    case 17: return "[table]\n\n[table t]\n\n[table [[]]]\n\n[variablelist]\n\n[variablelist [[]]]\n\n";
    case 18: return "[section]\n[endsect]\n\n[heading]\n\n[note]\n\n[:]\n\n[pre]\n\n";
    case 19: return "[@] [@ ] [link] [link x] [$] [$ ] [#] [anchor] [footnote]\n\n";
    case 20: return std::string("a\\") + (r.chance(1, 2) ? "\\" : "") + "\n\n\\u00 \\U0000 \\u0000 \\uffff \\U00110000\n\n";
    case 21: return "`unclosed code\n\n``unclosed block\n\n";
    case 22: return "\x80\xff\xc3(\xe2\x82 \xf0\x9f text\n\n";
    case 23: return std::string("a\0b\0", 4) + "\n\n";
    case 24: return fmt("'''<link linkend=\"x%d\"/><xref linkend=\"\"/><anchor id=\"y%d\"/><footnote/><co/><callout arearefs=\"q\"/>'''\n\n", i, i);
    case 25: return "'''<table><title>t</title><tgroup cols=\"2\"><thead></thead><tbody><row><entry/></row></tbody></tgroup></table>'''\n\n";
    case 26: return "'''<programlisting><co id=\"a1\" linkends=\"a2\"/></programlisting><calloutlist><callout id=\"a2\" arearefs=\"a1\"><para>z</para></callout></calloutlist>'''\n\n";
    case 27: return "'''<section><title>raw</title><section id=\"q\"><para/></section></section>'''\n\n";
    case 30: {
        // the mark that ends a raw piece, and what cannot be laid out
        static const char* t[] = {"<!>", "</a></b></c></d>", "<?>", "<!-- a", "<1>", "<!->", "<?-?>", "</article></article>", "<!DOCTYPE", ">"};
        return std::string("'''<!--quickbook-escape-postfix-->") + t[r.below(10)] + "'''\n\n";
    }
    case 31: case 32: case 33: case 34: return raw_docbook(r);
    case 35: case 36: return odd_ids(r, v, i);
    case 28: return "'''<mediaobject><imageobject><imagedata fileref=\"a.png\"/></imageobject><textobject><phrase>x</phrase></textobject></mediaobject>'''\n\n";
    default: return "'''<ulink url=\"a b?c=%zz&d\"/>''' '''<simplelist type=\"x\"/>''' '''<xi:include href=\"a.xml\"/>'''\n\n";
    }
}

// puts a piece into a source: at its end or at one of its blank lines
void insert_piece(Rng& r, FileSpec& f, const std::string& piece0) {
    std::string piece = piece0;
    std::string nl = contains(f.data, "\r\n") ? "\r\n" : "\n";
    std::vector<size_t> at;
    for (size_t i = f.data.find(nl + nl); i != std::string::npos; i = f.data.find(nl + nl, i + 1)) at.push_back(i + 2 * nl.size());
    if (nl != "\n") piece = replace_all(piece, "\n", nl);
    if (at.empty() || r.chance(1, 2)) f.data += nl + nl + piece;
    else f.data.insert(r.pick(at), piece);
}
int add_mistakes(Rng& r, Scenario& s, Project const& p, int mistakes, int oddities) {
    std::vector<size_t> qbk;
    for (size_t i = 0; i < s.files.size(); ++i)
        if (s.files[i].type == 'f' && (ends_with(s.files[i].path, ".qbk") || ends_with(s.files[i].path, ".quickbook")) &&
            !starts_with(s.files[i].data, "DECOY") && !contains(s.files[i].data, "[template held") &&
            (!p.corpus || s.files[i].path == p.main))
            qbk.push_back(i);
    if (qbk.empty()) return 0;
    std::vector<FileSpec> extra;
    bool one = r.chance(1, 2);
    for (int i = 0; i < mistakes + oddities; ++i) {
        FileSpec& f = s.files[one && s.find(p.main) ? (size_t)(s.find(p.main) - &s.files[0]) : r.pick(qbk)];
        int v = p.versions.count(f.path) ? p.versions.find(f.path)->second : p.version;
        std::string piece = i < mistakes ? mistake(r, v, i, dirname_of(f.path), extra) : oddity(r, v, i);
        if (r.chance(1, 3)) piece = wrapped(r, v, i, piece);
        insert_piece(r, f, piece);
    }
    for (auto& e : extra) if (!s.find(e.path)) s.files.push_back(e);
    return mistakes;
}
void add_docbook(Rng& r, Scenario& s, Project const& p, bool ids) {
    FileSpec* f = s.find(p.main);
    if (!f || p.corpus) return;
    for (int i = r.range(1, 5); i > 0; --i) insert_piece(r, *f, ids && r.chance(1, 4) ? oddity(r, p.version, i, 35) : raw_docbook(r));
}
std::string odd_define(Rng& r, bool bad) {
    static const char* wrong[] = {"[bad macro", "x='''raw", "x=``a[`", "x=[classref]", "x=[footnote a]", "a b", "=x", "x]=y", "x=''' [br]", "x=[footnote a[footnote b]]",
        "x=[funcref ]", "x=words ``open[` words"};
    static const char* odd[] = {"x=[", "x=]", "x", "x=", " x = y ", "x=``int a``", "x=[br]", "x=words [br] [~a]", "x=\\n words", "x='''<b>raw</b>'''", "x=[classref a b]",
        "x=__FILENAME__ __DATE__", "x=[@a b]", "x=[? x y]", "x=[c++]``a``", "x=&lt;", "x=`a`", "x=``a[def a b]``", "x=\"q\"", "x=[link a b]", "x=[#a]", "x=caf\xc3\xa9",
        "x=[$a.svg]", "x=[*b]", "x=\\u0041\\x", "\xc3\xa9=1", "x=x x", "x=[python]`a`", "x=``\"a``", "x=__x"};
    return bad && r.chance(4, 5) ? wrong[r.below(sizeof wrong / sizeof *wrong)] : odd[r.below(sizeof odd / sizeof *odd)];
}
// something odd in the document information of the main file
bool add_info_oddity(Rng& r, Scenario& s, Project const& p) {
    FileSpec* f = s.find(p.main);
    if (!f || p.corpus || f->data.empty() || f->data[0] != '[') return false;
    std::string nl = contains(f->data, "\r\n") ? "\r\n" : "\n";
    size_t e = f->data.find(nl + "]" + nl), t = f->data.find(nl);
    if (e == std::string::npos || t > e) return false;
    static const char* lines[] = {
        "[purpose [footnote a note]]", "[license words [footnote a note] more]", "[purpose [#anchor_here] words]", "[license [link main_id here]]",
        "[copyright 2010-2001 X]", "[copyright nobody]", "[authors [one]]", "[authors [one, two], three]", "[last-revision]", "[last-revision yesterday]",
        "[source-mode pascal]", "[quickbook 1.6]", "[quickbook 9.9]", "[id $x]", "[id]", "[id two words]", "[xmlbase *]", "[lang]", "[category]", "[biblioid x y]",
        "[biblioid isbn]", "[purpose]", "[license]", "[version]", "[dirname a/b]", "[compatibility-mode 1.1]", "[compatibility-mode 9]", "[unknown x]", "[purpose `x`]",
        "[purpose [unknown x]]", "[purpose '''raw", "[purpose [$image.png]]", "[license [include x.qbk]]", "[license [*bold] [^x]]", "[purpose __FILENAME__ __DATE__]",
        "[purpose [section x]]", "[purpose [endsect]]", "[license [br] [br]]", "[purpose [template x[] y] [x]]", "[doc-ids]", "[]", "[id main_id]", "[license \"quote\"]"};
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) f->data.insert(e, nl + "    " + lines[r.below(sizeof lines / sizeof *lines)]);
    if (r.chance(1, 3)) {
        static const char* titles[] = {" [footnote in the title]", " [#in_title]", " ['x] `y`", " [unknown]", " \\n", " [$x.svg]", " [br]", " ''' <x/> '''"};
        f->data.insert(t, titles[r.below(8)]);
    }
    return true;
}

} // namespace qs
