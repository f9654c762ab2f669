#include "lower.hpp"
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
#include <lsqecc/pipelines/slicer.hpp>
#include <nlohmann/json.hpp>
#include "lli_gen.hpp"
#include "grid.hpp"
using namespace vf;
using Exposed = std::map<PatchId, std::pair<bool, bool>>; // x, z
// Instructions over the core patches and others.
static LSInstruction gen_ls(pbt::Src& s, uint32_t n) {
    auto any = [&] { return PatchId(s.chance(1, 5) ? 500 + s.below(4) : s.below(n)); };
    static const std::vector<PauliOperator> xz{PauliOperator::X, PauliOperator::Z};
    using O = SingleQubitOp::Operator;
    switch (s.weighted({6, 5, 3, 4, 2, 2, 1, 1, 1, 1, 1})) {
        case 0: { tsl::ordered_map<PatchId, PauliOperator> m; int k = 1 + s.below(3); for (int i = 0; i < k; ++i) m[any()] = s.pick(xz); return {.operation = MultiPatchMeasurement{m, false}}; }
        case 1: return {.operation = SingleQubitOp{any(), O::H}};
        case 2: return {.operation = SingleQubitOp{any(), O::S, s.chance(1, 3)}};
        case 3: { PatchId a = any(), b = any(); if (a == b) b = 600; return {.operation = BellBasedCNOT{a, b, 700, 701}}; }
        case 4: return {.operation = SingleQubitOp{any(), s.pick(std::vector<O>{O::X, O::Y, O::Z})}};
        case 5: return {.operation = RotateSingleCellPatch{any()}};
        case 6: return {.operation = SinglePatchMeasurement{any(), s.pick(xz), false}};
        case 7: return {.operation = PatchInit{PatchId(500 + s.below(4)), PatchInit::InitializeableStates::Plus, std::nullopt}};
        case 8: return {.operation = MagicStateRequest{PatchId(500 + s.below(4)), any()}};
        case 9: return {.operation = YStateRequest{PatchId(500 + s.below(4)), any()}};
        default: return {.operation = PatchReset{any()}};
    }
}
static void note(pbt::Case& c, const std::vector<LSInstruction>& v) { for (auto& i : v) c.desc << canon(i) << "\n"; }
// The reference: rotate a patch exactly when the next instruction needs an operator it does not expose.
struct Out { std::set<std::string> rotations; std::string instr; std::string dep; };
static std::vector<Out> reference(const std::vector<LSInstruction>& v, Exposed e) {
    std::vector<Out> r;
    for (auto& i : v) {
        Out o; o.instr = canon(i); o.dep = deps(i);
        auto turn = [&](PatchId p) { if (e.count(p)) std::swap(e[p].first, e[p].second); };
        auto need = [&](PatchId p, bool x) { if (e.count(p) && !(x ? e[p].first : e[p].second)) { o.rotations.insert("ROT " + std::to_string(p)); turn(p); } };
        if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) for (auto& [p, op] : m->observable) need(p, op == PauliOperator::X);
        if (auto* b = std::get_if<BellBasedCNOT>(&i.operation)) { need(b->control, false); need(b->target, true); }
        if (auto* g = std::get_if<SingleQubitOp>(&i.operation)) { if (g->op == SingleQubitOp::Operator::S) need(g->target, false); if (g->op == SingleQubitOp::Operator::H) turn(g->target); }
        if (auto* t = std::get_if<RotateSingleCellPatch>(&i.operation)) turn(t->target);
        r.push_back(o);
    }
    return r;
}
static void rotations(pbt::Src& s, pbt::Case& c) {
    uint32_t n = 1 + s.upto(6); Exposed e; tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> start;
    auto src = std::make_unique<VecLS>();
    for (uint32_t i = 0; i < n; ++i) { src->core.insert(i); int k = s.weighted({4, 2, 2}); e[i] = {k != 0, k != 1}; start[i] = {e[i].first, e[i].second}; c.desc << i << " exposes" << (e[i].first ? " X" : "") << (e[i].second ? " Z" : "") << "\n"; }
    int k = 1 + s.upto(14); for (int i = 0; i < k; ++i) src->v.push_back(gen_ls(s, n));
    note(c, src->v); auto v = src->v;
    BoundaryRotationInjectionStream st(std::move(src), std::move(start));
    c.eq(st.core_qubits().size(), size_t(n), "core qubits");
    auto got = drain(st); auto want = reference(v, e);
    size_t g = 0; bool rotated = false;
    for (size_t i = 0; i < want.size(); ++i) {
        std::set<std::string> rot; std::string ctx = " (before instruction " + std::to_string(i) + ", " + want[i].instr + ")";
        for (size_t k = 0; k < want[i].rotations.size(); ++k) { c.check(g < got.size(), "the stream ended early" + ctx); rot.insert(canon(got[g++])); }
        c.check(rot == want[i].rotations, [&] { return "rotations injected: got {" + pbt::list(rot) + "}, expected {" + pbt::list(want[i].rotations) + "}" + ctx; });
        c.check(g < got.size(), "the stream ended early" + ctx);
        c.eq(canon(got[g]), want[i].instr, "instruction"); c.eq(deps(got[g]), want[i].dep, "dependencies" + ctx); ++g;
        rotated = rotated || !rot.empty();
    }
    c.eq(g, got.size(), "number of instructions");
    c.nontrivial(rotated); c.label_if(rotated, "rotations injected");
}
static void sgates(pbt::Src& s, pbt::Case& c) {
    uint32_t n = 1 + s.upto(6); int mode = s.below(3); bool always = s.chance(1, 2), local = mode == 2;
    auto src = std::make_unique<VecLS>(); for (uint32_t i = 0; i < n; ++i) src->core.insert(i);
    int k = 1 + s.upto(12); for (int i = 0; i < k; ++i) src->v.push_back(gen_ls(s, n));
    PatchId start = 1000 + s.below(1000); IdGenerator ids; ids.set_start(start);
    c.desc << (mode == 0 ? "teleported" : mode == 1 ? "catalytic" : "catalytic local") << (always ? " rotate after H" : "") << "\n"; note(c, src->v);
    auto v = src->v; bool any = false;
    Ref ref; ref.local = local; std::set<PatchId> known; for (PatchId i = 0; i < 1000; ++i) known.insert(i);
    for (auto& i : v) {
        auto* g = std::get_if<SingleQubitOp>(&i.operation); bool core = g && g->target < n;
        if (core && g->op == SingleQubitOp::Operator::S) { any = true; mode ? ref.s_catalytic(g->target) : ref.s_teleported(g->target); }
        else { ref.emit(canon(i), [&] { auto d = i.get_patch_dependencies(); return std::set<PatchId>(d.begin(), d.end()); }()); if (always && core && g->op == SingleQubitOp::Operator::H) ref.emit("ROT " + std::to_string(g->target), {g->target}); }
    }
    std::unique_ptr<LSInstructionStream> st;
    if (mode == 0) st = std::make_unique<TeleportedSGateInjectionStream>(std::move(src), ids, always); else st = std::make_unique<CatalyticSGateInjectionStream>(std::move(src), ids, local, always);
    c.eq(st->core_qubits().size(), size_t(n), "core qubits");
    auto got = drain(*st);
    compare(c, got, ref, known, "expansion");
    c.nontrivial(any); c.label_if(any, mode == 0 ? "teleported S" : "catalytic S");
    std::set<PatchId> made; Renamer rn; for (auto& i : got) if (auto* x = std::get_if<YStateRequest>(&i.operation)) if (x->target >= 1000) { c.check(x->target >= start, "made-up id below the first free one"); made.insert(x->target); }
}
// The whole front end through the command line: QASM in, LLI out, for each generated layout.
static void front_end(pbt::Src& s, pbt::Case& c) {
    uint32_t n = 1 + s.upto(7); int lay = s.below(4); bool local = s.chance(1, 3) && lay >= 2, cat = lay >= 2 && s.chance(1, 2), corr = s.chance(1, 5);
    static const std::vector<std::string> names{"compact", "compact_no_clogging", "edpc", "edpc"};
    GenGates o; o.rot = false; o.bell = !corr; if (corr && local) o.cnots = false;
    std::vector<G> gs; int k = 1 + s.upto(10); for (int i = 0; i < k; ++i) gs.push_back(gen_gate(s, n, o));
    bool lead_cnot = n > 1 && o.cnots && s.chance(1, 3);
    std::string t = "OPENQASM 2.0;\nqreg q[" + std::to_string(n) + "];\n";
    for (auto& g : gs) {
        std::ostringstream l; l << to_gate(g, "q"); t += l.str();
        if (g.k == G::CX || g.k == G::CZ) {
            bool say_t = g.ct != gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST || s.chance(1, 2), say_p = s.chance(1, 2);
            if (!say_p) g.ap = lay >= 2 ? gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET : gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
            std::string a = say_t ? std::string(g.ct == gates::CNOTType::BELL_BASED ? "BellBased" : g.ct == gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST ? "ZXWithMBMControlFirst" : "ZXWithMBMTargetFirst") : "";
            if (say_p) a += (a.empty() ? "" : ",") + std::string(g.ap == gates::CNOTAncillaPlacement::USE_DEDICATED_CELL ? "AncillaFreePlacement" : g.ap == gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL ? "AncillaNextToControl" : "AncillaNextToTarget");
            if (!a.empty()) t += " // %" + a;
        }
        t += "\n";
    }
    (void)lead_cnot;
    std::string cmd = "-I qasm -L " + names[lay] + (local ? " --local" : "") + (cat ? " --notwists" : "") + (corr ? " --cnotcorrections always" : "") + " --printlli before";
    // Options that say nothing about the instructions.
    bool more = s.chance(1, 2);
    if (more) {
        if (lay >= 2) { if (s.chance(2, 3)) cmd += " --numlanes " + std::to_string(s.range(1, 5)); if (s.chance(1, 2)) cmd += " --condensed"; if (s.chance(1, 3)) cmd += " --explicitfactories"; }
        else if (s.chance(1, 8)) cmd += " --condensed";
        if (s.chance(1, 4)) cmd += " --nostagger"; if (s.chance(1, 4)) cmd += " --disttime " + std::to_string(s.range(1, 40)); if (s.chance(1, 4)) cmd += " -g astar"; if (s.chance(1, 4)) cmd += " -r graph_search_cached"; if (s.chance(1, 4)) cmd += s.chance(1, 2) ? " -P wave" : " -P dag"; if (s.chance(1, 6)) cmd += " --op-ids"; if (s.chance(1, 6)) cmd += " --graceful"; if (s.chance(1, 6)) cmd += " -t 100000";
    }
    c.label_if(more, "more options");
    c.desc << cmd << "\n" << t;
    Ref low; low.local = local; low.corrections = corr; for (auto& g : gs) low.gate(g);
    // Exposed operators of the generated layouts: every core patch shows Z up and down, X left and right. The compact layouts have a free
    // row between two rows of cores, so every core shows Z, and the last of each row also shows X to its right.
    Exposed e; uint32_t cols = (n + 1) / 2;
    for (uint32_t i = 0; i < n; ++i) { bool last = i + 1 == cols || i + 1 == n; e[i] = {last, true}; }
    std::vector<std::pair<std::string, std::string>> mid = low.out;
    if (lay < 2) { // rotation injection works on text here
        std::vector<std::pair<std::string, std::string>> r;
        for (auto& [i, d] : mid) {
            std::istringstream w(i); std::string op, a, b; w >> op >> a >> b;
            auto turn = [&](PatchId p) { if (e.count(p)) std::swap(e[p].first, e[p].second); };
            auto need = [&](PatchId p, bool x) { if (e.count(p) && !(x ? e[p].first : e[p].second)) { r.push_back({"ROT " + std::to_string(p), std::to_string(p)}); turn(p); } };
            if (op == "MM") { std::istringstream l(a); std::string x; while (std::getline(l, x, ',')) need(std::stoul(x), x.back() == 'X'); }
            if (op == "BCNOT") { need(std::stoul(a), false); need(std::stoul(b), true); }
            if (op == "OP" && (a == "S" || a == "SDG")) need(std::stoul(b), false);
            if (op == "OP" && a == "H") turn(std::stoul(b));
            r.push_back({i, d});
        }
        mid = r;
    }
    Ref fin; fin.local = local; fin.next = low.next;
    for (auto& [i, d] : mid) {
        std::istringstream w(i); std::string op, a, b; w >> op >> a >> b;
        if (op == "OP" && (a == "S" || a == "SDG")) { cat ? fin.s_catalytic(std::stoul(b)) : fin.s_teleported(std::stoul(b)); }
        else { fin.out.push_back({i, d}); if (lay >= 2 && op == "OP" && a == "H" && std::stoul(b) < n) fin.out.push_back({"ROT " + b, b}); }
    }
    auto res = nlohmann::json::parse(run_slicer_program_from_strings(cmd, t));
    c.eq(res["exit_code"].get<int>(), 0, "exit code, with " + res["err"].get<std::string>());
    std::istringstream out(res["output"].get<std::string>()); std::string l; std::vector<std::string> lines; while (std::getline(out, l)) lines.push_back(l);
    std::vector<LSInstruction> got;
    for (auto& x : lines) { if (x.find("Gate") != std::string::npos && x.find("SGate") == std::string::npos && x.find("HGate") == std::string::npos) {} std::istringstream in("DeclareLogicalQubitPatches 0\n" + x + "\n"); LSInstructionStreamFromFile f(in); got.push_back(f.get_next_instruction()); }
    // Numbers of made-up patches may differ from the reference's order of invention, so rename both.
    Renamer r1, r2; for (uint32_t i = 0; i < n; ++i) { r1.known.insert(i); r2.known.insert(i); }
    std::vector<std::string> gt, wt;
    for (auto& x : got) gt.push_back(canon(rename(x, r1)));
    std::map<std::string, std::string> ren; PatchId nx = BASE;
    for (auto& [i, d] : fin.out) { std::string o; size_t p = 0; while (p < i.size()) { if (isdigit(i[p]) && (p == 0 || i[p - 1] == ' ' || i[p - 1] == ',') && i.substr(0, p).find("INIT") != 0) {} if (isdigit(i[p])) { size_t q = p; while (q < i.size() && isdigit(i[q])) ++q; std::string num = i.substr(p, q - p); if (std::stoull(num) >= BASE) { if (!ren.count(num)) ren[num] = std::to_string(nx++); num = ren[num]; } o += num; p = q; } else o += i[p++]; } wt.push_back(o); }
    for (size_t i = 0; i < gt.size() || i < wt.size(); ++i) c.eq(i < gt.size() ? gt[i] : "(nothing)", i < wt.size() ? wt[i] : "(nothing)", "instruction " + std::to_string(i) + " of\n" + res["output"].get<std::string>());
    c.nontrivial(gs.size() >= 2); c.label(names[lay]); c.label_if(local, "local"); c.label_if(cat, "catalytic"); c.label_if(corr, "corrections");
}
// What a layout lets each core patch show at the start: an operator is exposed when a free cell lies beside one of its edges.
static void layout_exposes(pbt::Src& s, pbt::Case& c) {
    VLayout l(1 + s.below(6), 1 + s.below(6)); std::set<Cell> used; auto src = std::make_unique<VecLS>(); Exposed e; std::vector<std::pair<Cell, bool>> at; int declared = 0, spare = s.below(3);
    for (int r = 0; r < l.rows; ++r) for (int k = 0; k < l.cols; ++k) switch (s.weighted({6, 5, 1, 1, 1})) {
        case 1: { bool turned = s.chance(1, 4); auto p = LayoutHelpers::basic_square_patch({r, k}); if (turned) std::get<SingleCellOccupiedByPatch>(p.cells).instant_rotate(); l.core.push_back(p); at.push_back({{r, k}, turned}); break; }
        case 2: l.dead.push_back({r, k}); used.insert({r, k}); break;
        case 3: l.ystates.push_back({r, k}); used.insert({r, k}); break;
        case 4: { MultipleCellsOccupiedByPatch m; m.sub_cells.push_back(LayoutHelpers::make_distillation_region_cell({r, k})); l.regions.push_back(m); l.queue.push_back({}); l.times.push_back(5); used.insert({r, k}); break; }
        default: if (s.chance(1, 4)) l.ancilla.push_back({r, k});
    }
    if (at.empty()) { l = VLayout(2, 2); l.core.push_back(LayoutHelpers::basic_square_patch({1, 0})); at = {{{1, 0}, false}}; used.clear(); }
    declared = std::max<int>(1, int(at.size()) - spare); for (int i = 0; i < declared; ++i) { src->core.insert(3 * i + 1); used.insert(at[i].first); }
    std::vector<LSInstruction> v; std::ostringstream pic; for (int r = 0; r < l.rows; ++r) { for (int k = 0; k < l.cols; ++k) { char ch = used.count({r, k}) ? '#' : '.'; for (int i = 0; i < declared; ++i) if (at[i].first == Cell{r, k}) ch = char((at[i].second ? 'a' : 'A') + i % 26); pic << ch; } pic << "\n"; }
    bool some = false;
    for (int i = 0; i < declared; ++i) {
        auto [cell, turned] = at[i]; bool x = false, z = false;
        for (int d = 0; d < 4; ++d) { Cell n = step(cell, d); if (!inside(l, n) || used.count(n)) continue; ((d >= 2) != turned ? x : z) = true; }
        e[3 * i + 1] = {x, z}; some = some || x != z;
        for (auto p : {PauliOperator::Z, PauliOperator::X, PauliOperator::Z}) v.push_back({.operation = MultiPatchMeasurement{{{PatchId(3 * i + 1), p}, {PatchId(500), PauliOperator::Z}}, false}});
    }
    c.desc << pic.str(); src->v = v;
    BoundaryRotationInjectionStream st(std::move(src), l); auto got = drain(st); auto want = reference(v, e); size_t g = 0;
    for (size_t i = 0; i < want.size(); ++i) {
        std::set<std::string> rot; for (; g < got.size() && std::holds_alternative<RotateSingleCellPatch>(got[g].operation); ++g) rot.insert(canon(got[g]));
        c.check(rot == want[i].rotations, [&] { return "rotations injected: got {" + pbt::list(rot) + "}, expected {" + pbt::list(want[i].rotations) + "} before " + want[i].instr; });
        c.check(g < got.size(), "the stream ended early"); c.eq(canon(got[g++]), want[i].instr, "instruction");
    }
    c.eq(g, got.size(), "number of instructions"); c.nontrivial(some); c.label_if(spare, "places without a patch");
}
// An LLI program through the command line: the gadgets on its core patches, with made-up patches that nothing of the program goes by at that point.
static void lli_front_end(pbt::Src& s, pbt::Case& c) {
    bool cat = s.chance(1, 2), local = cat && s.chance(1, 2); std::set<PatchId> core, named; std::string decl;
    int n = 1 + s.upto(5); for (int i = 0; i < n; ++i) { PatchId p = gen_id(s); if (p >= 900000) continue; core.insert(p); decl += (decl.empty() ? "" : ",") + std::to_string(p); }
    if (core.empty()) { core.insert(3); decl = "3"; }
    named = core; std::vector<PatchId> ids(core.begin(), core.end());
    PatchId top = *core.rbegin(); for (int i = 1; i <= 4; ++i) ids.push_back(top + i);
    using O = SingleQubitOp::Operator; auto id = [](PatchId p) { return std::to_string(p); };
    std::string text = "DeclareLogicalQubitPatches " + decl + "\n"; Ref ref; ref.local = local; std::vector<std::set<PatchId>> at; bool any = false, after = false, others = false;
    auto emitted = [&] { while (at.size() < ref.out.size()) at.push_back(named); };
    int k = 1 + s.upto(12);
    for (int i = 0; i < k; ++i) {
        PatchId a = s.pick(ids), b = s.pick(ids); if (a == b) b = ids[0] == a ? ids[1] : ids[0];
        std::string t, w; std::set<PatchId> use{a}; bool sg = false;
        switch (s.weighted({6, 4, 2, 3, 2, 2, 2, 1})) {
            case 0: t = "SGate " + id(a); w = "OP S " + id(a); sg = core.count(a); break;
            case 1: t = "Init " + id(a) + " |0>"; w = "INIT " + id(a) + " 0 -"; break;
            case 2: t = "MeasureSinglePatch " + id(a) + " X"; w = "M1 " + id(a) + " X"; break;
            case 3: t = "MultiBodyMeasure " + id(a) + ":Z," + id(b) + ":Z"; w = "MM " + id(a) + ":Z," + id(b) + ":Z"; use.insert(b); break;
            case 4: t = "RequestMagicState " + id(a) + " " + id(b); w = "MAGIC " + id(a) + " " + id(b); use.insert(b); break;
            case 5: t = "HGate " + id(a); w = "OP H " + id(a); break;
            case 6: { PatchId x = top + 5 + s.below(3), y = x + 1 + s.below(2); t = "BellBasedCNOT " + id(a) + " " + id(b) + " " + id(x) + " " + id(y); w = "BCNOT " + id(a) + " " + id(b) + " " + id(x) + " " + id(y); use = {a, b, x, y}; break; }
            case 7: t = "RequestYState " + id(a) + " " + id(b); w = "YSTATE " + id(a) + " " + id(b); break;
        }
        for (PatchId p : use) { others = others || p > top; named.insert(p); }
        text += t + "\n"; after = after || (sg && others);
        if (sg) { any = true; cat ? ref.s_catalytic(a) : ref.s_teleported(a); } else { ref.emit(w, {}); if (w.rfind("OP H", 0) == 0 && core.count(a)) ref.emit("ROT " + id(a), {}); }
        emitted();
    }
    std::string cmd = std::string("-I lli -L edpc --printlli before") + (cat ? " --notwists" : "") + (local ? " --local" : "");
    c.desc << cmd << "\n" << text;
    auto res = nlohmann::json::parse(run_slicer_program_from_strings(cmd, text));
    c.eq(res["exit_code"].get<int>(), 0, "exit code, with " + res["err"].get<std::string>());
    std::string printed = res["output"].get<std::string>(); std::istringstream in("DeclareLogicalQubitPatches 0\n" + printed);
    std::vector<LSInstruction> got; if (!printed.empty()) { LSInstructionStreamFromFile f(in); got = drain(f); }
    std::map<PatchId, PatchId> made; auto split = [](const std::string& x) { std::vector<std::string> r; std::string w; for (char ch : x) { bool d = isdigit((unsigned char)ch); if (!w.empty() && (isdigit((unsigned char)w.back()) != 0) != d) { r.push_back(w); w.clear(); } w += ch; } r.push_back(w); return r; };
    for (size_t i = 0; i < got.size() || i < ref.out.size(); ++i) {
        std::string ctx = "instruction " + std::to_string(i) + " of\n" + printed;
        std::string g = i < got.size() ? canon(got[i]) : "(nothing)", w = i < ref.out.size() ? ref.out[i].first : "(nothing)";
        auto x = split(g), y = split(w); std::string seen;
        if (x.size() != y.size()) c.eq(g, w, ctx);
        for (size_t j = 0; j < x.size(); ++j) {
            if (!isdigit((unsigned char)y[j][0]) || std::stoull(y[j]) < BASE || !isdigit((unsigned char)x[j][0])) { seen += y[j]; if (x[j] != y[j]) c.eq(g, w, ctx); continue; }
            PatchId want = std::stoul(y[j]), is = std::stoul(x[j]); auto it = made.find(want);
            if (it != made.end()) { c.eq(is, it->second, "made-up patch in " + ctx); continue; }
            c.check(!at[i].count(is), [&] { return "the program itself has a patch " + std::to_string(is) + ", and so is called a made-up one in " + ctx; });
            for (auto& [o, v] : made) c.check(v != is, [&] { return "two made-up patches are called " + std::to_string(is) + " in " + ctx; });
            made[want] = is;
        }
    }
    c.nontrivial(any && k > 1); c.label_if(after, "an S gate after patches that were not declared"); c.label(cat ? local ? "catalytic local" : "catalytic" : "teleported");
}
PBT_MAIN("P06", "instruction sequences over core and other patches through the rotation and S gate injections, and QASM and LLI programs through the command line to LLI for each generated layout, compared with reference expansions; non-trivial: something was injected, or two or more gates",
    {{"rotations", rotations, 40000, 1000000}, {"sgates", sgates, 40000, 1000000}, {"front_end", front_end, 12000, 300000}, {"layout_exposes", layout_exposes, 15000, 300000}, {"lli_front_end", lli_front_end, 10000, 200000}})
