// Shared by the demonstrations: small programs run through liblsqecc's library interface.
#pragma once
#include <lsqecc/patches/dense_patch_computation.hpp>
#include <lsqecc/gates/parse_gates.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
#include <lsqecc/layout/graph_search/custom_graph_search.hpp>
#include <lsqecc/layout/router.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
#include <lsqecc/patches/dense_slice.hpp>
#include <lsqecc/patches/slice_stats.hpp>
#include <lsqecc/patches/slices_to_json.hpp>
#include <lsqecc/dag/domain_dags.hpp>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
using namespace lsqecc;
#define OK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\n", #c, __LINE__); std::exit(1); } } while (0)
// A lattice given cell by cell.
struct Lat : Layout {
    int R, C; std::vector<SparsePatch> core; std::vector<Cell> anc, dead, ys, mag; std::vector<MultipleCellsOccupiedByPatch> reg; std::vector<std::vector<Cell>> q; DistillationTimeMap t;
    Lat(int r, int c) : R(r), C(c) {}
    Lat& at(int r, int c) { core.push_back(LayoutHelpers::basic_square_patch({r, c})); return *this; }
    const std::vector<SparsePatch>& core_patches() const override { return core; }
    Cell furthest_cell() const override { return {R - 1, C - 1}; }
    const std::vector<MultipleCellsOccupiedByPatch>& distillation_regions() const override { return reg; }
    const DistillationTimeMap& distillation_times() const override { return t; }
    const std::vector<Cell>& distilled_state_locations(size_t i) const override { return q.at(i); }
    const std::vector<Cell>& ancilla_location() const override { return anc; }
    const std::vector<Cell>& dead_location() const override { return dead; }
    const std::vector<Cell>& predistilled_y_states() const override { return ys; }
    const bool magic_states_reserved() const override { return !mag.empty(); }
    const std::vector<Cell>& reserved_for_magic_states() const override { return mag; }
};
struct Prog : LSInstructionStream {
    std::vector<LSInstruction> v; size_t i = 0; tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override { return v.at(i++); }
    bool has_next_instruction() const override { return i < v.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};
struct Out { std::vector<DenseSlice> slices; std::vector<std::vector<std::string>> applied; std::string error; size_t n = 0; };
// Runs LLI lines; the core patches take the ids 0, 1, ...
inline Out go(const Layout& l, const std::string& lli, PipelineMode m = PipelineMode::Stream, bool local = false, bool twists = true, bool op_ids = false, int wait = 50, bool astar = false, size_t cap = 500) {
    Prog p; std::istringstream in(lli); std::string s; PatchId id = 0; for (auto& x : l.core_patches()) p.core.insert(id++);
    while (std::getline(in, s)) if (!s.empty()) { auto i = parse_ls_instruction(s); i.wait_at_most_for = wait; p.v.push_back(i); }
    auto r = std::make_unique<CustomDPRouter>(); if (astar) r->set_graph_search_provider(GraphSearchProvider::AStar);
    Out o; std::vector<std::string> now;
    try { auto res = run_through_dense_slices(std::move(p), m, local, twists, l, std::move(r), std::nullopt,
        [&](const DenseSlice& d) { o.slices.push_back(d); o.applied.push_back(now); now.clear(); if (o.slices.size() > cap) throw std::runtime_error("too long"); },
        [&](const LSInstruction& i) { std::ostringstream t; t << i; now.push_back(t.str()); }, false, op_ids); o.n = res.ls_instructions_count(); }
    catch (const std::exception& e) { o.error = e.what(); }
    return o;
}
inline std::string gates_of(const std::string& qasm) { std::istringstream in(qasm); GateStreamFromFile g(in); std::ostringstream o; while (g.has_next_gate()) { g.get_next_gate(); o << "."; } return o.str(); }
