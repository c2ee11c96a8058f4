// qbsim: a scenario is everything one evaluation depends on; replay files are
// scenarios written out.
#pragma once
#include "kernel.hpp"

namespace qs {

struct Step {
    char kind = 'r'; // r run group, e apply edit, p power loss
    int64_t arg = 0;
};

struct Scenario {
    std::string prop, variant;
    uint64_t seed = 0;
    KernelCfg k;
    std::vector<FileSpec> files;
    std::vector<Edit> edits;
    std::vector<Fault> faults;
    std::vector<Group> groups;
    std::vector<Step> steps;
    std::map<std::string, std::string> opt;

    std::string get(const std::string& k, const std::string& d = "") const {
        auto i = opt.find(k);
        return i == opt.end() ? d : i->second;
    }
    RunCfg& run0() { return groups[0].procs[0]; }
    RunCfg const& run0() const { return groups[0].procs[0]; }
    FileSpec* find(const std::string& path) {
        for (auto& f : files) if (f.path == path) return &f;
        return 0;
    }
};

std::string to_text(Scenario const& s);
bool from_text(const std::string& t, Scenario& s, std::string& error);
std::string fault_str(Fault const& f);

struct Violation {
    bool found = false;
    std::string cls;    // class: stable under minimisation
    std::string detail; // human readable
    explicit operator bool() const { return found; }
};
inline Violation bad(const std::string& cls, const std::string& detail) {
    Violation v;
    v.found = true;
    v.cls = cls;
    v.detail = detail;
    return v;
}
inline Violation good() { return Violation(); }

// One evaluation: what an oracle gets to work with.
struct Ctx {
    Stats* stats;
    Hash log;            // event log of every simulated execution, in order
    long executions = 0;
    bool nontrivial = false; // this case exercised what the property is about
    bool verbose = false;
    uint64_t last_key = 0; // the scenario executed last without faults, and how it went
    std::shared_ptr<void> last;
    uint64_t last_log = 0;
    explicit Ctx(Stats* s) : stats(s) {}
    void note(Kernel& k) { log.u64(k.log.h); ++executions; }
};

struct Property {
    const char* id;
    const char* rule; // what a case is, what makes it non-trivial
    // Builds case number `index` of a run with the given seed.  May execute the
    // code fault-free to learn where faults can go.
    Scenario (*generate)(Rng& rng, Ctx& ctx, int index);
    Violation (*evaluate)(Scenario const& s, Ctx& ctx);
    int quick_cases, thorough_cases;
};
std::vector<Property> const& properties();

} // namespace qs
