#include "lli_gen.hpp"
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
using namespace vf;
static std::set<PatchId> acts(const LSInstruction& i) { auto o = i.get_operating_patches(); return {o.begin(), o.end()}; }
// One line: its meaning, by name and by number, the patches it acts on, and print -> parse.
static void line(pbt::Src& s, pbt::Case& c) {
    auto l = gen_lli(s);
    c.desc << l.text << "  means  " << l.canon; c.nontrivial(); c.label(l.canon.substr(0, l.canon.find(' ')));
    auto i = parse_ls_instruction(l.text);
    c.eq(canon(i), l.canon, "meaning of the line");
    c.eq(i.wait_at_most_for, LSInstruction::DEFAULT_MAX_WAIT, "wait");
    c.check(acts(i) == l.acts_on, [&] { return "patches it operates on: got " + pbt::list(acts(i)) + ", expected " + pbt::list(l.acts_on); });
    auto dep = i.get_patch_dependencies();
    for (auto x : l.acts_on) c.check(dep.contains(x), "dependencies lack a patch it operates on: " + std::to_string(x));
    if (!l.numeric.empty()) c.eq(canon(parse_ls_instruction(l.numeric)), l.canon, "meaning of the numeric form " + l.numeric);
    auto printed = pbt::str(l.instr);
    c.check(printed.find('\n') == std::string::npos, "printed over more than one line: " + printed);
    c.eq(canon(parse_ls_instruction(printed)), l.canon, "print then parse, through \"" + printed + "\"");
    c.eq(pbt::str(i), printed, "text printed for the parsed line");
}
// A whole file: declaration, blank lines, order; printed again it is the same file.
static void file(pbt::Src& s, pbt::Case& c) {
    std::vector<PatchId> ids; std::ostringstream t; std::vector<std::string> want;
    auto blank = [&] { while (s.chance(1, 6)) t << "\n"; };
    blank(); t << gen_declaration(s, ids) << "\n";
    int n = s.upto(12);
    for (int i = 0; i < n; ++i) { blank(); auto l = gen_lli(s); t << (s.chance(1, 5) && !l.numeric.empty() ? l.numeric : l.text) << "\n"; want.push_back(l.canon); }
    std::string text = t.str(); if (s.chance(1, 4)) text.pop_back(); else if (s.chance(1, 4)) text += "\n";
    c.desc << text; c.nontrivial(n > 1);
    std::istringstream in(text);
    auto f = std::make_unique<LSInstructionStreamFromFile>(in);
    c.eq(pbt::list(f->core_qubits()), pbt::list(ids), "declared qubits");
    std::vector<LSInstruction> got;
    while (f->has_next_instruction()) got.push_back(f->get_next_instruction());
    std::vector<std::string> gc; for (auto& g : got) gc.push_back(canon(g));
    c.eq(pbt::list(gc, "\n"), pbt::list(want, "\n"), "instructions of the file");
    auto mem = parse_ls_instructions(text);
    c.eq(pbt::list(mem.core_qubits), pbt::list(ids), "declared qubits, in memory");
    gc.clear(); for (auto& g : mem.instructions) gc.push_back(canon(g));
    c.eq(pbt::list(gc, "\n"), pbt::list(want, "\n"), "instructions, in memory");
    // Print everything and read it back.
    LSInstruction decl{DeclareLogicalQubitPatches{f->core_qubits()}};
    std::istringstream in2(text), in3;
    std::ostringstream again; again << decl << "\n";
    print_all_ls_instructions_to_string(again, std::make_unique<LSInstructionStreamFromFile>(in2));
    in3.str(again.str());
    LSInstructionStreamFromFile f3(in3);
    c.eq(pbt::list(f3.core_qubits()), pbt::list(ids), "declared qubits, printed and read back from\n" + again.str());
    gc.clear(); while (f3.has_next_instruction()) gc.push_back(canon(f3.get_next_instruction()));
    c.eq(pbt::list(gc, "\n"), pbt::list(want, "\n"), "instructions, printed and read back");
}
// Lines that are not LLI are refused rather than read as something else.
static void refused(pbt::Src& s, pbt::Case& c) {
    static const std::vector<std::string> bad{"HGate", "HGate -1", "HGate x", "HGate 4294967296", "HGate 1x", "SGate ", "MeasureSinglePatch 0", "MeasureSinglePatch 0 Q", "MeasureSinglePatch X 0", "MultiBodyMeasure 0", "MultiBodyMeasure 0:Z,1", "MultiBodyMeasure 0:Z:X", "MultiBodyMeasure 0:W",
        "Init 3", "Init 3 |->", "Init 3 1", "Init 3 |0> 4", "Init 3 |0> 4:Q", "Init a |0>", "RequestMagicState 3", "RequestYState 3", "RequestMagicState 3 x", "LogicalPauli 3", "LogicalPauli 3 H", "RotateSingleCellPatch", "BellPairInit 1 2", "BellPairInit 1 2 3:Z", "BellPairInit 1 2 3:Z,4:X,5:Z",
        "BellPairInit 1 2 3,4", "BellBasedCNOT 1 2 3", "Nothing 1", "TGate 1", "hgate 1", "11 1", "MeasureSinglePatch 0,1 X", "DeclareLogicalQubitPatches", "DeclareLogicalQubitPatches 0,a", "DeclareLogicalQubitPatches -1"};
    std::vector<PatchId> ids; std::ostringstream t; t << gen_declaration(s, ids) << "\n";
    int n = s.below(5), at = s.below(n + 1); auto b = s.pick(bad);
    for (int i = 0; i <= n; ++i) { if (i == at) t << b << "\n"; if (i < n) t << gen_lli(s).text << "\n"; }
    c.desc << t.str(); c.nontrivial();
    std::istringstream in(t.str()); bool threw = false; int got = 0;
    try { LSInstructionStreamFromFile f(in); while (f.has_next_instruction()) { f.get_next_instruction(); ++got; } } catch (const std::exception&) { threw = true; }
    c.check(threw, "accepted: " + b);
    threw = false; try { parse_ls_instructions(t.str()); } catch (const std::exception&) { threw = true; }
    c.check(threw, "accepted in memory: " + b);
}
static void first_line(pbt::Src& s, pbt::Case& c) {
    std::ostringstream t; int n = s.below(4);
    while (s.chance(1, 3)) t << "\n";
    for (int i = 0; i < n; ++i) t << gen_lli(s).text << "\n";
    c.desc << t.str(); c.nontrivial(n > 0);
    std::istringstream in(t.str()); bool threw = false;
    try { LSInstructionStreamFromFile f(in); } catch (const std::exception&) { threw = true; }
    c.check(threw, "a file without a leading qubit declaration was accepted");
}
// The exact text printed for an instruction, with the operations it was compiled to and signs, which the format cannot read back.
static LocalInstruction::LocalLSInstruction gen_local(pbt::Src& s, std::string& t) {
    using namespace LocalInstruction;
    auto cell = [&] { return Cell{s.range(-1, 40), s.range(-1, 40)}; }; Cell a = cell(), b = cell(); auto at = [](Cell x) { return "(" + std::to_string(x.row) + "," + std::to_string(x.col) + ")"; };
    auto id = [&]() -> std::optional<PatchId> { if (s.chance(1, 2)) return gen_id(s); return std::nullopt; };
    auto two = [&](const char* n) { t = std::string(n) + " " + at(a) + "," + at(b); };
    switch (s.below(7)) {
        case 0: t = "PrepareY " + at(a); return {PrepareY{id(), a}};
        case 1: { two("BellPrepare"); auto x = id(), y = id(); return {BellPrepare{x, y, a, b}}; }
        case 2: two("BellMeasure"); return {BellMeasure{a, b}};
        case 3: two("TwoPatchMeasure"); return {TwoPatchMeasure{a, b}};
        case 4: two("ExtendSplit"); return {ExtendSplit{id(), a, b}};
        case 5: two("MergeContract"); return {MergeContract{a, b}};
        default: two("Move"); return {Move{a, b, id()}};
    }
}
static void printed(pbt::Src& s, pbt::Case& c) {
    static const std::vector<PauliOperator> xyz{PauliOperator::X, PauliOperator::Y, PauliOperator::Z};
    LSInstruction i; std::string want; auto id = [](PatchId x) { return std::to_string(x); };
    auto some = [&](size_t n, unsigned& from, unsigned& to, const std::vector<std::string>& ts, std::string& o) { from = s.below(n + 1); to = from + s.below(n - from + 1); for (unsigned k = from; k < to; ++k) o += (k > from ? ";" : "") + ts[k]; };
    auto a = gen_id(s), b = gen_id(s), d = gen_id(s), e = gen_id(s); std::string t; bool neg = s.chance(1, 2), loc = s.chance(1, 2);
    switch (s.below(6)) {
        case 0: { auto p = s.pick(xyz); i.operation = SinglePatchMeasurement{a, p, neg}; want = "MeasureSinglePatch " + id(a) + " " + (neg ? "-" : "") + pauli(p); c.label_if(neg, "negative"); break; }
        case 1: {
            MultiPatchMeasurement m{.is_negative = neg}; int n = 1 + s.below(4); want = std::string("MultiBodyMeasure ") + (neg ? "-" : ""); c.label_if(neg, "negative");
            for (int k = 0; k < n; ++k) { PatchId x = gen_id(s); if (m.observable.count(x)) continue; auto p = s.pick(xyz); want += (m.observable.empty() ? "" : ",") + id(x) + ":" + pauli(p); m.observable[x] = p; }
            if (loc) { m.local_instruction = gen_local(s, t); want += " [" + t + "]"; c.label("compiled"); }
            i.operation = m; break; }
        case 2: { YStateRequest y{a, b}; want = "RequestYState " + id(a) + " " + id(b); if (loc) { y.local_instruction = gen_local(s, t); want += " [" + t + "]"; c.label("compiled"); } i.operation = y; break; }
        case 3: {
            auto p = s.pick(xyz), q = s.pick(xyz); BellPairInit x{a, b, {d, p}, {e, q}}; want = "BellPairInit " + id(a) + " " + id(b) + " " + id(d) + ":" + pauli(p) + "," + id(e) + ":" + pauli(q);
            if (loc) { std::vector<LocalInstruction::LocalLSInstruction> v; std::vector<std::string> ts; int n = 1 + s.below(6); for (int k = 0; k < n; ++k) { v.push_back(gen_local(s, t)); ts.push_back(t); } std::pair<unsigned, unsigned> r; std::string o; some(n, r.first, r.second, ts, o); x.local_instructions = v; x.counter = r; want += " [" + o + "]"; c.label("compiled"); }
            i.operation = x; break; }
        case 4: {
            BellBasedCNOT x{a, b, d, e}; want = "BellBasedCNOT " + id(a) + " " + id(b) + " " + id(d) + " " + id(e);
            if (loc) { // one phase has operations in this slice
                int ph = 2, at = s.below(ph); std::vector<std::vector<LocalInstruction::LocalLSInstruction>> sets(ph); std::vector<std::pair<unsigned, unsigned>> cs(ph); std::string o;
                for (int f = 0; f < ph; ++f) { std::vector<std::string> ts; int n = 1 + s.below(6); for (int k = 0; k < n; ++k) { sets[f].push_back(gen_local(s, t)); ts.push_back(t); } if (f == at) some(n, cs[f].first, cs[f].second, ts, o); else { unsigned z = s.chance(1, 2) ? 0 : n; cs[f] = {z, z}; } }
                x.local_instruction_sets = sets; x.counter_pairs = cs; x.current_phase = at; want += " [" + o + "]"; c.label("compiled");
            }
            i.operation = x; break; }
        default: {
            BusyRegion r; int n = 1 + s.below(5); want = "BusyRegion "; r.steps_to_clear = s.below(30);
            for (int k = 0; k < n; ++k) { Cell x{s.range(0, 40), s.range(0, 40)}; SingleCellOccupiedByPatch sc{}; sc.cell = x; r.region.cells.push_back(sc); want += "(" + id(x.row) + "," + id(x.col) + "),"; }
            want += "StepsToClear(" + std::to_string(r.steps_to_clear) + ")"; i.operation = r; break; }
    }
    c.desc << want; c.nontrivial(); c.label(want.substr(0, want.find(' ')));
    c.eq(pbt::str(i), want, "printed text");
    // A text the format cannot express is refused or read with its meaning, never as something else.
    try { auto back = parse_ls_instruction(want); c.eq(canon(back), canon(i), "the text read back"); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { c.label("not readable"); }
}
PBT_MAIN("P03", "every LLI instruction form with generated ids and operators, alone and in files with blank lines, together with its meaning; non-trivial: any single instruction, a file of two or more instructions, an ill-formed line among well-formed ones, a printed text with a sign or compiled operations",
    {{"line", line, 60000, 1500000}, {"file", file, 20000, 500000}, {"refused", refused, 10000, 200000}, {"first_line", first_line, 3000, 50000}, {"printed", printed, 20000, 500000}})
