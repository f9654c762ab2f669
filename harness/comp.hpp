// Whole computations: generated programs on generated layouts, run through one of the pipelines, with every slice and
// every applied instruction recorded in order.
#pragma once
#include "grid.hpp"
#include "lower.hpp"
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
#include <lsqecc/patches/dense_patch_computation.hpp>
#include <iostream>
#include <memory>
namespace vf {
struct Comp {
    std::shared_ptr<Layout> layout; std::string layout_name; bool edpc_layout = false, circuit = false, reused = false;
    std::vector<LSInstruction> prog; tsl::ordered_set<PatchId> core;
    PipelineMode mode = PipelineMode::Stream; bool local = false, twists = true, op_ids = false; GraphSearchProvider search = GraphSearchProvider::Djikstra;
    std::vector<G> gates; uint32_t qubits = 0;
    std::vector<std::string> opts; std::string qasm, layout_text; // how to ask the slicer for the same computation
};
inline const char* mode_name(PipelineMode m) { switch (m) { case PipelineMode::Stream: return "stream"; case PipelineMode::Dag: return "dag"; case PipelineMode::Wave: return "wave"; default: return "edpc"; } }
struct Step { std::vector<LSInstruction> applied; DenseSlice slice; };
struct Run { std::vector<Step> steps; std::vector<LSInstruction> rest; std::optional<std::string> error; std::string said; bool capped = false; size_t instructions = 0, slices = 0; };
struct TooLong : std::runtime_error { TooLong() : std::runtime_error("too long") {} };
inline Run run(const Comp& k, size_t cap, bool graceful = false, std::optional<std::chrono::seconds> timeout = std::nullopt) {
    struct Quiet { std::ostringstream o; std::streambuf *b = std::cout.rdbuf(o.rdbuf()), *e = std::cerr.rdbuf(o.rdbuf()); ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(e); } } quiet;
    Run r; VecLS st; st.v = k.prog; st.core = k.core;
    auto router = std::make_unique<CustomDPRouter>(); router->set_graph_search_provider(k.search);
    std::vector<LSInstruction> now; size_t events = 0;
    try {
        auto res = run_through_dense_slices(std::move(st), k.mode, k.local, k.twists, *k.layout, std::move(router), timeout,
            [&](const DenseSlice& s) { r.steps.push_back({now, s}); now.clear(); if (r.steps.size() >= cap) throw TooLong(); },
            [&](const LSInstruction& i) { now.push_back(i); if (++events > 200000) throw TooLong(); }, graceful, k.op_ids);
        r.instructions = res.ls_instructions_count(); r.slices = res.slice_count();
    } catch (const TooLong&) { r.capped = true; }
    catch (const pbt::Failure&) { throw; }
    catch (const std::exception& e) { r.error = e.what(); }
    r.said = quiet.o.str(); if (r.steps.size() >= cap) r.capped = true; r.rest = now; return r;
}
inline bool same_slice(const DenseSlice& a, const DenseSlice& b) {
    if (a.cells.size() != b.cells.size() || a.magic_states != b.magic_states) return false;
    for (size_t i = 0; i < a.cells.size(); ++i) { if (a.cells[i].size() != b.cells[i].size()) return false; for (size_t j = 0; j < a.cells[i].size(); ++j) { auto &x = a.cells[i][j], &y = b.cells[i][j]; if (bool(x) != bool(y) || (x && !(static_cast<const Patch&>(*x) == static_cast<const Patch&>(*y) && x->boundaries == y->boundaries))) return false; } }
    return true;
}
inline DistillationOptions gen_dist(pbt::Src& s, pbt::Case& c, int max = 12) { DistillationOptions d; d.distillation_time = 1 + s.below(max); d.staggered = !s.chance(1, 3); c.desc << "disttime " << d.distillation_time << (d.staggered ? "" : " nostagger") << "\n"; return d; }
struct Opt { bool edpc = false, raw = true, circuits = true, local = true, local_only = false, dag = true, magic_heavy = false, merge_heavy = false, rot_heavy = false; int max_gates = 8, max_qubits = 6; bool cli = false, no_factories = false, plain_compact = false; };
inline void gen_mode(pbt::Src& s, Comp& k, const Opt& o) {
    static const std::vector<PipelineMode> m{PipelineMode::Stream, PipelineMode::Wave, PipelineMode::Dag};
    k.mode = m[s.below(o.dag ? 3 : 2)]; k.op_ids = s.chance(1, 2); k.search = s.chance(1, 3) ? GraphSearchProvider::AStar : GraphSearchProvider::Djikstra;
}
inline std::string qasm(const G& g, const std::string& reg) {
    auto q = [&](uint32_t i) { return reg + "[" + std::to_string(i) + "]"; };
    auto ann = [&] { return std::string(" // %") + (g.ct == gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST ? "ZXWithMBMControlFirst" : g.ct == gates::CNOTType::BELL_BASED ? "BellBased" : "ZXWithMBMTargetFirst") + "," + (g.ap == gates::CNOTAncillaPlacement::USE_DEDICATED_CELL ? "AncillaFreePlacement" : g.ap == gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL ? "AncillaNextToControl" : "AncillaNextToTarget"); };
    switch (g.k) {
        case G::SQ: { auto n = sq_name(g.t); for (auto& ch : n) ch = std::tolower(ch); return n + " " + q(g.a) + ";"; }
        case G::CX: return "cx " + q(g.a) + "," + q(g.b) + ";" + ann();
        case G::CZ: return "cz " + q(g.a) + "," + q(g.b) + ";" + ann();
        case G::RST: return "reset " + q(g.a) + ";";
        case G::ROTZ: return std::string("rz(") + (g.neg ? "-" : "") + "pi/" + std::to_string(g.den) + ") " + q(g.a) + ";";
    }
    return "";
}
inline void say(pbt::Case& c, const Comp& k) {
    c.desc << k.layout_name << ", " << mode_name(k.mode) << " pipeline" << (k.local ? ", local" : "") << (k.twists ? "" : ", no twists") << (k.op_ids ? ", op ids" : "") << (k.search == GraphSearchProvider::AStar ? ", astar" : "") << "\ncore " << pbt::list(k.core) << "\n";
    for (auto& i : k.prog) { c.desc << canon(i); if (i.wait_at_most_for != LSInstruction::DEFAULT_MAX_WAIT) c.desc << " (waits " << i.wait_at_most_for << ")"; if (!i.clients.empty()) c.desc << " (clients " << pbt::list(i.clients) << ")"; c.desc << "\n"; }
}
// A circuit on one of the generated layouts (or a drawn one), compiled as the slicer compiles it.
inline Comp gen_circuit(pbt::Src& s, pbt::Case& c, const Opt& o) {
    Comp k; k.circuit = true; gen_mode(s, k, o);
    uint32_t n = k.qubits = 1 + s.below(o.max_qubits); int lay = o.edpc ? 2 : o.local_only ? 2 + s.below(2) : s.below(o.cli ? 5 : 4); auto d = gen_dist(s, c); if (o.edpc) { k.mode = PipelineMode::EDPC; k.op_ids = false; n = k.qubits = n + 1; }
    k.local = o.edpc || o.local_only || (o.local && lay >= 2 && s.chance(1, 2)); bool cat = lay >= 2 && lay < 4 && s.chance(1, 2); bool corr = o.cli && !k.local && s.chance(1, 4); k.twists = !cat; if (k.local && cat && k.mode == PipelineMode::Dag) k.mode = PipelineMode::Wave;
    GenGates go; go.bell = k.local; go.rot = !o.cli; int g = 1 + s.below(o.max_gates); for (int i = 0; i < g; ++i) {
        if (o.edpc && s.chance(3, 4)) { G x{G::CX}; x.a = s.below(n); x.b = (x.a + 1 + s.below(n - 1)) % n; x.ct = gates::CNOTType::BELL_BASED; k.gates.push_back(x); } else k.gates.push_back(gen_gate(s, n, go)); }
    if (lay == 2 || lay == 3) for (auto& x : k.gates) if (x.ap == gates::CNOTAncillaPlacement::USE_DEDICATED_CELL) x.ap = s.chance(1, 2) ? gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL : gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
    if (o.plain_compact && lay < 2) for (auto& x : k.gates) x.ap = gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
    if (lay == 4) {
        // A drawn layout: patches on every other cell, with places for magic states around
        int per = 1 + s.below(3), rows = (n + per - 1) / per, R = 2 * rows + 1, C = 2 * per + 3; std::vector<std::string> g(R, std::string(C, 'r')); bool fac = s.chance(1, 2);
        for (uint32_t i = 0; i < n; ++i) g[1 + 2 * (i / per)][1 + 2 * (i % per)] = 'Q';
        if (fac) { int len = 1 + s.below(R - 1); for (int i = 0; i < len; ++i) g[i][C - 1] = '0'; if (s.chance(1, 2)) g[R - 1][0] = '1'; } else { g[0][C - 1] = 'M'; if (s.chance(1, 2)) g[R - 1][C - 1] = 'M'; if (s.chance(1, 2)) g[R - 1][0] = 'X'; }
        if (s.chance(1, 2)) g[0][0] = 'A'; else for (auto& x : k.gates) if (x.ap == gates::CNOTAncillaPlacement::USE_DEDICATED_CELL) x.ap = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
        for (auto& r : g) k.layout_text += r + "\n"; c.desc << k.layout_text; k.layout_name = "drawn layout"; k.layout = std::make_shared<LayoutFromSpec>(std::string_view(k.layout_text), d);
    }
    for (auto& x : k.gates) c.desc << show(x) << "\n";
    VecGates gs; gs.reg = Qreg{"q", n}; for (auto& x : k.gates) gs.v.push_back(to_gate(x, "q"));
    IdGenerator ids; ids.set_start(n);
    std::unique_ptr<LSInstructionStream> st = std::make_unique<LSInstructionStreamFromGateStream>(gs, corr ? CNOTCorrectionMode::ALWAYS : CNOTCorrectionMode::NEVER, ids, k.local);
    if (lay < 2) {
        k.layout = make_compact_layout(n, d, lay == 1); k.layout_name = lay ? "compact_no_clogging" : "compact";
        st = std::make_unique<BoundaryRotationInjectionStream>(std::move(st), *k.layout);
        st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), ids, false);
    } else if (lay < 4) {
        k.edpc_layout = true; size_t lanes = o.edpc || (k.local && s.chance(1, 2)) ? 1 : 1 + s.below(3); bool condensed = s.chance(1, 4), fac = !o.no_factories && s.chance(1, 3);
        k.layout = make_edpc_layout(n, lanes, condensed, fac, cat, d); k.opts = {"-L", "edpc", "--numlanes", std::to_string(lanes)}; if (lanes == 1 && s.chance(1, 2)) k.opts.resize(2); if (condensed) k.opts.push_back("--condensed"); if (fac) k.opts.push_back("--explicitfactories"); k.layout_name = "edpc " + std::to_string(lanes) + " lanes" + (condensed ? " condensed" : "") + (fac ? " factories" : "") + (cat ? " Y states" : "");
        if (cat) st = std::make_unique<CatalyticSGateInjectionStream>(std::move(st), ids, k.local, true);
        else st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), ids, true);
    }
    k.core = st->core_qubits(); k.prog = drain(*st);
    if (o.cli) {
        if (lay == 1) k.opts = {"-L", "compact_no_clogging"}; if (lay == 0 && s.chance(1, 2)) k.opts = {"-L", "compact"};
        auto add = [&](std::vector<std::string> v) { k.opts.insert(k.opts.end(), v.begin(), v.end()); };
        if (d.distillation_time != DistillationOptions{}.distillation_time || s.chance(1, 2)) add({"--disttime", std::to_string(d.distillation_time)}); if (!d.staggered) add({"--nostagger"});
        if (k.local) add({"--local"}); if (!k.twists) add({"--notwists"}); if (k.op_ids) add({"--op-ids"}); if (corr) add({"--cnotcorrections", "always"});
        if (k.mode != PipelineMode::Stream || s.chance(1, 3)) add({"-P", mode_name(k.mode)}); if (k.search == GraphSearchProvider::AStar) add({"-g", "astar"}); else if (s.chance(1, 4)) add({"-g", "djikstra"});
        k.qasm = std::string("OPENQASM 2.0;\nqreg q[") + std::to_string(n) + "];\n"; for (auto& x : k.gates) k.qasm += vf::qasm(x, "q") + "\n";
    }
    say(c, k); return k;
}
// A drawn lattice, and instructions that use live patches in any way, each waiting a bounded time.
inline Comp gen_raw(pbt::Src& s, pbt::Case& c, const Opt& o) {
    Comp k; gen_mode(s, k, o); auto d = gen_dist(s, c, 8);
    int R = 2 + s.below(6), C = 3 + s.below(6); auto lay = std::make_shared<VLayout>(R, C);
    std::vector<Cell> all; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) all.push_back({i, j}); s.shuffle(all); size_t at = 0;
    auto take = [&] { return all.at(at++); };
    int n = 1 + s.below(std::min<int>(5, int(all.size()) / 3)); std::vector<std::string> pic(R, std::string(C, '.'));
    auto draw = [&](Cell x, char ch) { pic[x.row][x.col] = ch; };
    for (int i = 0; i < n; ++i) { Cell x = take(); lay->core.push_back(LayoutHelpers::basic_square_patch(x)); draw(x, char('A' + i)); }
    int dead = s.below(4); for (int i = 0; i < dead && at < all.size(); ++i) { lay->dead.push_back(take()); draw(lay->dead.back(), 'x'); }
    int y = s.chance(1, 2) ? 1 + s.below(3) : 0; for (int i = 0; i < y && at < all.size(); ++i) { lay->ystates.push_back(take()); draw(lay->ystates.back(), 'y'); }
    int kind = o.magic_heavy ? 1 + s.below(2) : s.weighted({1, 2, 2}), regions = 1 + s.below(3);
    if (kind == 1) for (int i = 0; i < regions && at + 3 < all.size(); ++i) {
        MultipleCellsOccupiedByPatch m; int sz = 1 + s.below(2); for (int j = 0; j < sz; ++j) { Cell x = take(); m.sub_cells.push_back(LayoutHelpers::make_distillation_region_cell(x)); draw(x, char('0' + i)); }
        lay->regions.push_back(m); std::vector<Cell> q; int nq = s.below(4); for (int j = 0; j < nq; ++j) q.push_back(all[at + s.below(all.size() - at)]); lay->queue.push_back(q);
        c.desc << "queue of region " << i << ":"; for (auto& x : q) c.desc << show(x); c.desc << "\n";
        lay->times.push_back(d.distillation_time + (d.staggered ? i : 0));
    }
    if (kind == 2) for (int i = 0; i < regions && at < all.size(); ++i) { lay->magic.push_back(take()); draw(lay->magic.back(), 'M'); lay->times.push_back(d.distillation_time + (d.staggered ? i : 0)); }
    int anc = s.below(4); for (int i = 0; i < anc && at < all.size(); ++i) { Cell x = all[at + s.below(all.size() - at)]; lay->ancilla.push_back(x); draw(x, 'a'); }
    k.layout = lay; k.layout_name = "drawn lattice"; k.twists = s.chance(2, 3); k.local = o.local_only || (o.local && s.chance(1, 3));
    for (auto& l : pic) c.desc << l << "\n";
    for (int i = 0; i < n; ++i) k.core.insert(PatchId(i));
    std::vector<PatchId> live, ybound; for (int i = 0; i < n; ++i) live.push_back(i);
    struct Pair { PatchId a, b; PauliOperator op; }; std::vector<Pair> touching; auto gone = [&](PatchId t) { std::erase_if(touching, [&](auto& p) { return p.a == t || p.b == t; }); };
    PatchId fresh = n; std::vector<PatchId> freed; // Ids of patches measured or given back can be used again
    auto name = [&] { if (!freed.empty() && s.chance(1, 5)) { size_t i = s.below(freed.size()); PatchId x = freed[i]; freed.erase(freed.begin() + i); k.reused = true; return x; } return fresh++; }; int ops = 1 + s.below(o.max_gates * 3); static const std::vector<PauliOperator> xz{PauliOperator::X, PauliOperator::Z};
    using O = SingleQubitOp::Operator;
    for (int i = 0; i < ops; ++i) {
        LSInstruction in{.operation = PatchReset{0}}; bool mag = !lay->times.empty();
        auto any = [&] { return s.pick(live); };
        if (k.local && live.size() >= 2 && s.chance(1, 3)) {
            PatchId a = any(), b = any(); while (a == b) b = live[(std::find(live.begin(), live.end(), b) - live.begin() + 1) % live.size()];
            if (s.chance(1, 2)) { auto x = s.pick(xz), z = s.pick(xz); PatchId p = name(), q = name(); in.operation = BellPairInit{p, q, {a, x}, {b, z}}; in.clients = {a, b}; touching.push_back({a, p, x}); touching.push_back({b, q, z}); live.push_back(p); live.push_back(q); }
            else { PatchId p = name(), q = name(); in.operation = BellBasedCNOT{a, b, p, q}; freed.push_back(p); freed.push_back(q); }
        } else if (k.local && !touching.empty() && s.chance(1, 3)) {
            auto t = s.pick(touching); tsl::ordered_map<PatchId, PauliOperator> m; bool wrong = s.chance(1, 12); m[t.a] = wrong ? s.pick(xz) : t.op; m[t.b] = t.op; if (s.chance(1, 2)) { tsl::ordered_map<PatchId, PauliOperator> r; r[t.b] = m[t.b]; r[t.a] = m[t.a]; m = r; } in.operation = MultiPatchMeasurement{m, false};
        } else switch (live.empty() ? 2 : s.weighted({o.merge_heavy ? 12u : 5u, 4, 3, 3, o.merge_heavy ? 6u : 4u, o.rot_heavy ? 7u : 3u, mag ? (o.magic_heavy ? 9u : 3u) : 0u, o.magic_heavy ? 5u : 2u, 1, 2})) {
            case 0: if (live.size() < 2 || (k.local && !s.chance(1, 8))) { in.operation = SingleQubitOp{any(), O::H}; break; } else { PatchId a = any(), b = any(); while (a == b) b = live[(std::find(live.begin(), live.end(), b) - live.begin() + 1) % live.size()]; tsl::ordered_map<PatchId, PauliOperator> m; m[a] = s.pick(xz); m[b] = s.pick(xz); in.operation = MultiPatchMeasurement{m, false}; } break;
            case 1: { PatchId t = any(); auto op = s.pick(xz); PatchId p = name(); in.operation = PatchInit{p, PatchInit::InitializeableStates::Plus, PlaceNexTo{t, op}}; touching.push_back({t, p, op}); in.clients.insert(t); live.push_back(p); } break;
            case 2: { PatchId p = name(); in.operation = PatchInit{p, PatchInit::InitializeableStates::Zero, std::nullopt}; live.push_back(p); } break;
            case 3: { PatchId t = any(); in.operation = SinglePatchMeasurement{t, s.pick(xz), false}; live.erase(std::find(live.begin(), live.end(), t)); gone(t); auto yb = std::find(ybound.begin(), ybound.end(), t); if (yb != ybound.end()) ybound.erase(yb); else freed.push_back(t); } break;
            case 4: in.operation = SingleQubitOp{any(), s.pick(o.merge_heavy ? std::vector<O>{O::H, O::X, O::S, O::S} : std::vector<O>{O::H, O::X, O::Y, O::Z, O::S})}; break;
            case 5: in.operation = RotateSingleCellPatch{any()}; break;
            case 6: { PatchId t = any(); PatchId p = name(); in.operation = MagicStateRequest{p, t}; in.clients.insert(t); live.push_back(p); } break;
            case 7: if (!ybound.empty() && s.chance(1, 2)) { size_t j = s.below(ybound.size()); PatchId t = ybound[j]; in.operation = YStateRequest{t, t}; ybound.erase(ybound.begin() + j); live.erase(std::find(live.begin(), live.end(), t)); }
                    else { PatchId t = any(); in.operation = YStateRequest{fresh, t}; in.clients.insert(t); ybound.push_back(fresh); live.push_back(fresh++); } break;
            case 8: in.operation = PatchReset{any()}; break;
            case 9: in.operation = SingleQubitOp{any(), O::H}; break;
        }
        in.wait_at_most_for = s.below(25);
        k.prog.push_back(in);
    }
    say(c, k); return k;
}
}
