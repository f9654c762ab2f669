#include "lli_gen.hpp"
#include "mutate.hpp"
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
using namespace vf;
static const std::vector<std::string> dict{"DeclareLogicalQubitPatches ", "MeasureSinglePatch ", "MultiBodyMeasure ", "Init ", "RequestMagicState ", "RequestYState ", "LogicalPauli ", "HGate ", "SGate ", "XGate ", "Reset ", "RotateSingleCellPatch ", "BellPairInit ", "BellBasedCNOT ", "|+>", "|0>", "0:Z,1:X", "0:Z", ":", ",", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "X", "Y", "Z", "I", "-", "-1", "4294967296", "\r\n", "  ", ";", "0,1,2"};
struct Result { std::vector<std::string> ins, core; bool threw = false; std::string what; };
static Result parse(const std::string& t) {
    Result r; std::istringstream in(t);
    try { LSInstructionStreamFromFile f(in); r.core.push_back(pbt::list(f.core_qubits())); while (f.has_next_instruction()) r.ins.push_back(canon(f.get_next_instruction())); }
    catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
    return r;
}
static void judge(pbt::Case& c, const std::string& text) {
    c.desc << quoted(text);
    auto r = parse(text);
    c.label(r.threw ? "refused" : "accepted"); c.label_if(r.threw && !r.ins.empty(), "refused midway");
    c.check(r.ins.size() <= 1u + std::count(text.begin(), text.end(), '\n'), "more instructions than lines");
    auto again = parse(text);
    c.check(again.ins == r.ins && again.threw == r.threw && again.what == r.what, "parsing the same text twice differs");
    size_t cut = text.find('\n', text.size() / 2);
    if (cut != std::string::npos) {
        auto p = parse(text.substr(0, cut + 1));
        size_t n = std::min(p.ins.size(), r.ins.size());
        for (size_t i = 0; i < n; ++i) c.eq(r.ins[i], p.ins[i], "instruction " + std::to_string(i) + " changes with later lines");
        if (!p.threw && !r.threw) c.check(r.ins.size() >= p.ins.size(), "later lines removed instructions");
    }
    // The two readers agree: what the streaming one accepts the in-memory one reads alike.
    if (!r.threw) {
        InMemoryLogicalLatticeComputation m; bool threw = false;
        try { m = parse_ls_instructions(text); } catch (const std::exception&) { threw = true; }
        if (!threw) { std::vector<std::string> v; for (auto& i : m.instructions) v.push_back(canon(i)); c.eq(pbt::list(v, "\n"), pbt::list(r.ins, "\n"), "in-memory reader against streaming reader"); }
    }
    // Everything accepted can be printed, and reads back as itself.
    if (!r.threw) {
        std::istringstream in(text); LSInstructionStreamFromFile f(in);
        while (f.has_next_instruction()) { auto i = f.get_next_instruction();
            if (auto* op = std::get_if<SingleQubitOp>(&i.operation)) if (static_cast<int>(op->op) == 0) continue; // "LogicalPauli n I": no operator to print
            if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) if (m->observable.empty()) continue;
            if (auto* d = std::get_if<DeclareLogicalQubitPatches>(&i.operation)) if (d->patch_ids.empty()) continue;
            auto p = pbt::str(i); c.eq(canon(parse_ls_instruction(p)), canon(i), "print then parse of \"" + p + "\""); }
    }
}
static void mutated(pbt::Src& s, pbt::Case& c) {
    std::vector<PatchId> ids; std::string t = gen_declaration(s, ids) + "\n"; int n = 1 + s.below(6);
    for (int i = 0; i < n; ++i) { auto l = gen_lli(s); t += (s.chance(1, 4) && !l.numeric.empty() ? l.numeric : l.text) + "\n"; }
    c.nontrivial(); judge(c, mutate(s, t, dict));
}
static void tokens(pbt::Src& s, pbt::Case& c) { auto t = soup(s, dict); if (s.chance(3, 4)) t = "DeclareLogicalQubitPatches 0,1\n" + t; c.nontrivial(t.size() > 34); judge(c, t); }
static void one_line(pbt::Src& s, pbt::Case& c) {
    auto l = gen_lli(s).text; if (s.chance(1, 8)) l = soup(s, dict); else l = mutate(s, l, dict);
    c.desc << quoted(l); c.nontrivial(!l.empty());
    try { auto i = parse_ls_instruction(l); c.label("accepted"); canon(i); i.get_operating_patches(); } catch (const std::exception&) { c.label("refused"); }
}
PBT_MAIN("P04", "damaged LLI files and lines (byte, token and line damage on valid ones) and token soup, under address and undefined-behaviour sanitizers; non-trivial: derived from at least one instruction, or longer than the bare declaration",
    {{"mutated", mutated, 60000, 2000000}, {"tokens", tokens, 40000, 1000000}, {"one_line", one_line, 60000, 2000000}})
