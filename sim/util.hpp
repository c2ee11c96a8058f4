// qbsim: what the property checks share.
#pragma once
#include "gen.hpp"

namespace qs {

typedef std::map<std::string, FileSpec> Tree;

// The result of executing every step of a scenario.
struct Exec {
    std::vector<std::vector<ProcResult>> results; // per run step
    std::vector<Tree> after;                      // tree after each step
    std::vector<std::pair<size_t, size_t>> span;  // trace range of each run step
    std::vector<Ev> trace;
    std::vector<int64_t> t0, t1;                  // clock before / after each run step
    Tree before;
    bool injected = false;
    ProcResult const& r0() const { return results[0][0]; }
    Tree const& end() const { return after.empty() ? before : after.back(); }
};
Exec execute(Scenario const& s, Ctx& ctx);
// the same scenario with no faults of any kind (chunking and interruption are kept off too)
Scenario calm(Scenario s);

Tree tree_of(std::vector<FileSpec> const& v);
Tree full_tree(std::vector<FileSpec> const& v); // with the directories the files are in
// paths that differ between two trees, with a description
std::vector<std::string> tree_diff(Tree const& a, Tree const& b, bool modes = false);
std::string describe_diff(Tree const& a, Tree const& b, std::vector<std::string> const& d);
std::string first_difference(const std::string& a, const std::string& b);

bool is_open_write(Ev const& e);
bool is_output_path(Scenario const& s, const std::string& path);
std::string diagnostics(ProcResult const& r); // everything the run said
int error_lines(ProcResult const& r);
// the printed final count, -1 if none
int printed_error_count(ProcResult const& r);
std::string short_diag(ProcResult const& r);

// standard classes of misbehaviour every property rejects
Violation died(ProcResult const& r);

} // namespace qs
