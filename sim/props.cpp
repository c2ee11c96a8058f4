#include "props.hpp"
namespace qs {
std::vector<Property> const& properties() {
    static std::vector<Property> v;
    if (v.empty()) {
        add_io_props(v);
        add_dep_props(v);
        add_det_props(v);
        add_diag_props(v);
        add_more_props(v);
    }
    return v;
}
}
