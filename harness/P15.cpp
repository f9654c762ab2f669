#include "cli.hpp"
using namespace vf;
static void cells(pbt::Src& s, pbt::Case& c) {
    auto l = gen_vlayout(s); auto sl = gen_slice(s, c, *l);
    std::string text; try { text = slice_to_json(sl).dump(s.below(4)); } catch (const std::exception& e) { c.fail(std::string("refused: ") + e.what()); }
    same_json(c, json::parse(text), ref_slice(sl), "slice"); size_t n = 0; for (auto& r : sl.cells) for (auto& p : r) n += bool(p); c.nontrivial(n >= 4); c.label_if(!l->regions.empty(), "distillation regions"); c.label_if(n == 0, "empty");
}
static void whole(pbt::Src& s, pbt::Case& c, bool edpc) {
    Opt o; o.cli = true; o.edpc = edpc; auto k = gen_circuit(s, c, o); bool graceful = s.chance(1, 4); Run r = run(k, 120, graceful); if (r.capped) c.discard(); if (graceful) k.opts.push_back("--graceful");
    std::optional<TempFile> lay, out; auto args = std::vector<std::string>{"-I", "qasm"} + k.opts; if (!k.layout_text.empty()) { lay.emplace(k.layout_text); args = args + std::vector<std::string>{"-l", lay->path}; }
    if (s.chance(1, 3)) { out.emplace(); args = args + std::vector<std::string>{"-o", out->path}; }
    c.desc << join(args) << "\n"; auto said = slicer(args, k.qasm); std::string text = out ? out->read() : said.out;
    if (r.error) { c.label("error"); if (text.empty()) { c.check(r.steps.empty(), "slices were made but not written"); return; } text += "]"; } else c.label("completed");
    json got; try { got = json::parse(text); } catch (const std::exception& e) { c.fail(std::string("not valid JSON: ") + e.what() + "\n" + text.substr(0, 200) + "...\nmessages: " + said.err); }
    json want = json::array(); for (auto& t : r.steps) want.push_back(ref_slice(t.slice)); same_json(c, got, want, "slices");
    c.nontrivial(r.steps.size() >= 3 && !r.error); c.label(mode_name(k.mode)); c.label_if(k.op_ids, "operation ids"); c.label_if(k.local, "local");
}
PBT_MAIN("P15", "a slice with four occupied cells, or a computation of three slices or more that completes", {
    {"cells", cells, 6000, 300000}, {"computations", [](pbt::Src& s, pbt::Case& c) { whole(s, c, false); }, 500, 15000}, {"edpc computations", [](pbt::Src& s, pbt::Case& c) { whole(s, c, true); }, 200, 6000}})
