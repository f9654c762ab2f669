#include "cli.hpp"
using namespace vf;
static void compare(pbt::Case& c, const VolumeCounts& v, const Totals& t, const std::string& what) { c.eq(v.volume, t.volume, what + ": volume"); c.eq(v.unused_routing_volume, t.unused, what + ": unused routing volume"); c.eq(v.distillation_volume, t.distillation, what + ": distillation volume"); c.eq(v.dead, t.dead, what + ": dead volume"); }
static double share(size_t x, size_t of) { return 100.0 * double(x) / double(of); }
// Reads a line "name: n (p%)".
static void line(pbt::Case& c, std::istream& in, const std::string& name, size_t n, std::optional<size_t> of) {
    std::string l; std::getline(in, l); std::string want = name + ": " + std::to_string(n); size_t k = want.size(); c.check(l.compare(0, k, want) == 0 && (l.size() == k || !isdigit(l[k])), "got '" + l + "', expected " + want);
    if (!of) { c.eq(l, want, "line"); return; } if (!*of) return;
    char* e = nullptr; c.check(l.compare(k, 2, " (") == 0, "no percentage: " + l); double p = strtod(l.c_str() + k + 2, &e); c.eq(std::string(e), "%)", "end of the line"); double w = share(n, *of); c.check(std::abs(p - w) <= 1e-4 * std::max(1.0, w), "got '" + l + "', expected " + std::to_string(w) + "%");
}
static void report(pbt::Case& c, std::istream& in, const Totals& t) {
    line(c, in, "Total volume", t.volume, {}); line(c, in, "Distillation volume", t.distillation, t.volume); line(c, in, "Unused routing volume", t.unused, t.volume); line(c, in, "Dead volume", t.dead, t.volume); line(c, in, "Other active volume", t.volume - t.distillation - t.unused - t.dead, t.volume);
}
static void slices(pbt::Src& s, pbt::Case& c) {
    auto l = gen_vlayout(s); int n = 1 + s.upto(3); SliceStats st; Totals sum; std::vector<DenseSlice> v; for (int i = 0; i < n; ++i) v.push_back(gen_slice(s, c, *l));
    for (auto& x : v) { auto t = ref_totals({&x}); auto vc = compute_volume_counts(x); compare(c, vc, t, "slice"); st.totals += vc; sum.volume += t.volume; sum.unused += t.unused; sum.distillation += t.distillation; sum.dead += t.dead; }
    compare(c, st.totals, sum, "sum"); std::istringstream in(pbt::str(st)); report(c, in, sum); c.nontrivial(sum.unused && sum.distillation && sum.dead); c.label_if(!l->magic.empty(), "reserved cells");
}
// Sums of any size.
static void sums(pbt::Src& s, pbt::Case& c) {
    SliceStats st; Totals sum; uint64_t span = uint64_t(1) << s.below(50); int n = 1 + s.below(12);
    while (n--) { VolumeCounts v; v.unused_routing_volume = s.below(span); v.distillation_volume = s.below(span); v.dead = s.below(span); v.volume = v.unused_routing_volume + v.distillation_volume + v.dead + s.below(span); c.desc << v.volume << " " << v.unused_routing_volume << " " << v.distillation_volume << " " << v.dead << "\n"; st.totals += v; sum.volume += v.volume; sum.unused += v.unused_routing_volume; sum.distillation += v.distillation_volume; sum.dead += v.dead; }
    compare(c, st.totals, sum, "sum"); std::istringstream in(pbt::str(st)); report(c, in, sum); c.nontrivial(sum.volume > 1000); c.label_if(sum.volume >> 32, "above 2^32");
}
static void whole(pbt::Src& s, pbt::Case& c) {
    Opt o; o.cli = true; o.edpc = s.chance(1, 4); auto k = gen_circuit(s, c, o); Run r = run(k, 120, true); if (r.capped || r.steps.empty()) c.discard();
    std::optional<TempFile> lay, out; auto args = std::vector<std::string>{"-I", "qasm", "--graceful", "-f", "stats"} + k.opts; if (!k.layout_text.empty()) { lay.emplace(k.layout_text); args = args + std::vector<std::string>{"-l", lay->path}; }
    if (s.chance(1, 2)) { out.emplace(); args = args + std::vector<std::string>{"-o", out->path}; } else args.push_back("--noslices");
    c.desc << join(args) << "\n"; auto said = slicer(args, k.qasm); c.eq(said.code, 0, "exit code (" + said.err + ")");
    std::vector<const DenseSlice*> v; for (auto& t : r.steps) v.push_back(&t.slice); auto t = ref_totals(v);
    std::istringstream in(said.out); std::string l; bool found = false; size_t cells = v[0]->cells.size() * v[0]->cells[0].size(); c.eq(t.volume, cells * v.size(), "cells times slices");
    while (!found && std::getline(in, l)) { if (l.rfind("LS Instructions read", 0) == 0) c.eq(l, "LS Instructions read  " + std::to_string(r.instructions), "instructions"); if (l.rfind("Slices ", 0) == 0) c.eq(l, "Slices " + std::to_string(r.slices), "slices"); found = l.rfind("Made patch computation", 0) == 0; }
    c.check(found, "no statistics in the output: " + said.out); report(c, in, t);
    c.nontrivial(t.unused && t.distillation && v.size() >= 3); c.label(mode_name(k.mode)); c.label(k.layout_name.substr(0, 5)); c.label_if(t.dead, "dead cells"); c.label_if(k.layout->magic_states_reserved(), "reserved cells");
}
PBT_MAIN("P16", "cells of every kind on the slices, a volume above 1000, or a computation of three slices or more with distillation and free cells", {{"slices", slices, 6000, 300000}, {"sums", sums, 4000, 300000}, {"computations", whole, 600, 20000}})
