// qbsim: seeded workloads: QuickBook projects and command lines.
#pragma once
#include "scenario.hpp"

namespace qs {

struct Directive {
    std::string file;  // absolute path of the file that contains it
    int line = 0;
    char kind = 'i';   // i include, m import, x xinclude, s svg image
    std::string path;  // as the author means it (unescaped)
    bool glob = false;
};

struct Project {
    std::vector<FileSpec> files;
    RunCfg run;
    std::string main_arg, main; // as given / absolute
    std::string format;         // boostbook onehtml html
    std::string out;            // absolute output file, or directory for html
    std::string deps, locs;     // absolute, or empty
    bool deps_checked = false, deps_escaped = false;
    std::vector<std::string> incs; // include path arguments
    bool debug = false;
    int version = 107;
    bool corpus = false, expect_error = false;
    bool has_gold = false;
    std::string gold;
    std::vector<Directive> dirs;
    std::vector<std::string> ids;
    std::map<std::string, int> versions; // absolute path -> language version in force
    std::string image_dir;      // absolute
};

struct GenOpts {
    bool corpus = true;       // may be a project from the regression corpus
    int corpus_pct = 25;
    bool includes = true;     // wants at least one include
    int fmt = -1;             // -1 any, 0 boostbook, 1 onehtml, 2 html
    int deps = -1;            // -1 maybe, 0 no, 1 yes, 2 yes and checked
    int debug = -1;           // -1 maybe, 0 no, 1 yes
    bool no_output = false;   // may have no output besides deps
    int size = 1;             // 0 tiny, 1 normal, 2 large
    bool globs = true;
    bool oddnames = true;
    int min_version = 101;
    bool dates = true;        // may use the date macros
    bool many_pages = false;
    bool svg = true;
    bool template_includes = true; // includes held by templates of other files
    bool globby = false;      // mostly patterns
    bool bulk = false;        // files of more than one buffer
    bool rich = true;         // less common markup as well
};

bool load_corpus(const std::string& dir, std::string& error);
Project gen_project(Rng& r, GenOpts const& o);
Project corpus_project(Rng& r, int index, GenOpts const& o); // index < 0: random
int corpus_count();
// some sources and directories of sources become symbolic links to the real ones
void add_links(Rng& r, Scenario& s, bool absolute);
// adds environment noise that must not matter
void gen_noise(Rng& r, KernelCfg& k, RunCfg& c);
// a piece with a mistake (files it needs go to extra, below dir), a piece nested in something, an unusual piece
int mistake_kinds();
std::string mistake(Rng& r, int version, int serial, const std::string& dir, std::vector<FileSpec>& extra, int kind = -1);
std::string wrapped(Rng& r, int version, int serial, const std::string& piece);
std::string oddity(Rng& r, int version, int serial, int kind = -1);
std::string raw_docbook(Rng& r);
// raw DocBook and unusual ids for the main file
void add_docbook(Rng& r, Scenario& s, Project const& p, bool ids);
void insert_piece(Rng& r, FileSpec& f, const std::string& piece);
int add_mistakes(Rng& r, Scenario& s, Project const& p, int mistakes, int oddities);
// a macro definition for the command line: odd, and mostly wrong when bad
std::string odd_define(Rng& r, bool bad);
bool add_info_oddity(Rng& r, Scenario& s, Project const& p);
// the path as given to a process running in cwd
std::string rel_from(const std::string& cwd, const std::string& abs);
// puts project into scenario as group 0
void install(Scenario& s, Project const& p);

} // namespace qs
