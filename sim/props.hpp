#pragma once
#include "util.hpp"
namespace qs {
std::vector<size_t> events(std::vector<Ev> const& t, std::function<bool(Ev const&)> f);
int nth_of(std::vector<Ev> const& t, size_t i);
Fault at_event(std::vector<Ev> const& t, size_t i); // a fault at exactly that call
bool ev_output_open(Scenario const& s, Ev const& e);
void add_stale_outputs(Rng& r, Scenario& s);
std::string role_of(Scenario const& s, const std::string& p);
void add_io_props(std::vector<Property>& v);
void add_dep_props(std::vector<Property>& v);
void add_det_props(std::vector<Property>& v);
void add_diag_props(std::vector<Property>& v);
void add_more_props(std::vector<Property>& v);
}
