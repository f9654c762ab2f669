#include "model.hpp"
using namespace vf;
static bool refused_at_once(const Comp& k, const std::string& e) {
    auto has = [&](const char* t) { return e.find(t) != std::string::npos; };
    return (k.local && (has("mismatch") || has("between") || has("oundary") || has("at least two tiles"))) || (k.layout->distillation_times().empty() && has("No distillation times"));
}
static void go(pbt::Case& c, Comp& k, size_t cap) {
    k.op_ids = false;
    Run r = run(k, cap); auto m = judge(c, k, r, "P24"); if (!m) return;
    Trace t(k); std::map<size_t, size_t> since; bool stream = k.mode == PipelineMode::Stream; size_t longest = 0;
    auto bound = [&](size_t i) { return k.mode == PipelineMode::Dag ? 100 : k.prog[i].wait_at_most_for; };
    // Notes in which slice each instruction can first be tried; the number of slices it waited in is counted from there.
    auto note = [&](size_t slice) { for (auto i : t.heads()) since.emplace(i, slice); };
    auto waited = [&](size_t i, size_t now) { return now > since.at(i) ? now - since.at(i) : 0; };
    size_t n = 0; note(0);
    auto one = [&](const LSInstruction& in) {
        auto before = t.heads(); t.apply(in); auto after = t.heads();
        for (auto i : before) if (std::find(after.begin(), after.end(), i) == after.end()) { auto w = waited(i, n); longest = std::max(longest, w); if (w > bound(i)) c.fail(canon(k.prog[i]) + " was applied after waiting for " + std::to_string(w) + " slices, its limit is " + std::to_string(bound(i))); }
        note(stream && !t.ends_slice ? n : n + 1);
    };
    try {
        for (; n < r.steps.size(); ++n) for (auto& i : r.steps[n].applied) one(i);
        for (auto& i : r.rest) one(i);
    } catch (const Complaint&) { c.label("stopped: order"); return; }
    std::string how = r.capped ? "cut short" : "completed";
    if (!r.capped) for (auto i : t.heads()) { auto w = waited(i, n); if (w > bound(i) + stream) c.fail(canon(k.prog[i]) + " is still waiting after " + std::to_string(w) + " slices, its limit is " + std::to_string(bound(i))); }
    if (r.error) {
        if (refused_at_once(k, *r.error)) how = "refused at once";
        else {
            how = "waited in vain"; std::optional<size_t> who;
            for (auto i : t.heads()) { auto w = waited(i, n); if (!r.error->empty() && (stream || r.error->find(pbt::str(k.prog[i])) != std::string::npos) && (stream ? w == bound(i) + 1 : w == bound(i) || w + 1 == bound(i))) who = i; }
            if (!who) { std::string s; for (auto i : t.heads()) s += "\n  " + canon(k.prog[i]) + " waited for " + std::to_string(waited(i, n)) + " of " + std::to_string(bound(i)); c.fail("the run ended with '" + *r.error + "', but no such instruction had used up its waiting time; ready:" + s); }
            longest = std::max(longest, waited(*who, n)); c.nontrivial();
            if (!stream && !m->unmodelled && r.rest.empty() && m->could_apply_next(k.prog[*who]) == true) c.fail(canon(k.prog[*who]) + " is given up on although it can be applied");
        }
    }
    c.label(how); c.label(mode_name(k.mode)); c.nontrivial(longest >= 2); c.label_if(longest >= 20, "waiting 20 slices or more");
    // The same run asked to end gracefully
    Run g = run(k, cap, true);
    if (g.error) c.fail("a graceful run ended with an error: " + *g.error); if (r.capped) return;
    c.eq(g.steps.size(), r.steps.size(), "slices of a graceful run");
    for (size_t i = 0; i < r.steps.size(); ++i) if (!same_slice(g.steps[i].slice, r.steps[i].slice)) c.fail("slice " + std::to_string(i + 1) + " of a graceful run is another one");
    if (r.error) c.check(g.said.find(*r.error) != std::string::npos, "a graceful run does not say what happened (" + *r.error + "): " + g.said);
    else c.eq(g.said, std::string(), "what a graceful run without an error says");
}
static void circuits(pbt::Src& s, pbt::Case& c) { auto k = gen_circuit(s, c, Opt{}); for (auto& i : k.prog) i.wait_at_most_for = s.below(60); go(c, k, 400); }
static void raw(pbt::Src& s, pbt::Case& c) { auto k = gen_raw(s, c, Opt{}); go(c, k, 500); }
static void edpc(pbt::Src& s, pbt::Case& c) { Opt o; o.edpc = true; auto k = gen_circuit(s, c, o); for (auto& i : k.prog) i.wait_at_most_for = s.below(60); go(c, k, 400); }
static void large(pbt::Src& s, pbt::Case& c) { Opt o; o.edpc = s.chance(1, 5); o.max_gates = 100; o.max_qubits = 24; auto k = gen_circuit(s, c, o); for (auto& i : k.prog) i.wait_at_most_for = s.chance(1, 40) ? s.below(60) : 5000; go(c, k, 1200); }
// Programs that never end are stopped by the timeout, others are not changed by it.
static void timeouts(pbt::Src& s, pbt::Case& c) {
    auto k = gen_raw(s, c, Opt{.local = false}); k.op_ids = false; bool stuck = s.chance(1, 2), graceful = s.chance(1, 2);
    if (stuck) { if (k.mode == PipelineMode::Dag) k.mode = PipelineMode::Stream; k.prog.insert(k.prog.begin() + s.below(k.prog.size() + 1), LSInstruction{.operation = SinglePatchMeasurement{9999, PauliOperator::X, false}}); for (auto& i : k.prog) i.wait_at_most_for = LSInstruction::DEFAULT_MAX_WAIT; }
    c.desc << (stuck ? "with a measurement of a patch there is not\n" : "") << (graceful ? "graceful\n" : "");
    auto start = std::chrono::steady_clock::now(); auto limit = std::chrono::seconds(stuck ? 1 : 1000); size_t cap = stuck ? 100000000 : 400;
    if (stuck) {
        VecLS st; st.v = k.prog; st.core = k.core; auto router = std::make_unique<CustomDPRouter>(); size_t slices = 0; std::string error; struct Hang {};
        std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); bool hang = false;
        try { run_through_dense_slices(std::move(st), k.mode, k.local, k.twists, *k.layout, std::move(router), limit, [&](const DenseSlice&) { ++slices; if (std::chrono::steady_clock::now() - start > std::chrono::seconds(20)) throw Hang(); }, [](const LSInstruction&) {}, graceful, false); }
        catch (const std::exception& e) { error = e.what(); } catch (const Hang&) { hang = true; }
        std::cout.rdbuf(b); if (hang) c.fail("still slicing 20 s after a program with a timeout of 1 s was started");
        auto took = std::chrono::steady_clock::now() - start;
        if (graceful) c.check(error.empty(), "a graceful run ended with an error: " + error), error = o.str(); else c.check(!error.empty(), "a program that cannot end ended normally");
        if (error.find("Out of time") != std::string::npos) { c.check(took >= limit, "out of time before the time is over"); c.nontrivial(); c.label("stopped by the timeout"); } else c.label("stopped by an error");
        return;
    }
    Run r = run(k, cap), g = run(k, cap, false, limit);
    c.eq(g.error.value_or("none"), r.error.value_or("none"), "the error of a run with a timeout"); c.eq(g.steps.size(), r.steps.size(), "slices of a run with a timeout"); c.label("timeout not reached");
    for (size_t i = 0; i < r.steps.size(); ++i) if (!same_slice(g.steps[i].slice, r.steps[i].slice)) c.fail("slice " + std::to_string(i + 1) + " of a run with a timeout is another one");
}
PBT_MAIN("P24", "an instruction waits for two slices or more, or in vain", {{"circuits on generated layouts", circuits, 2500, 60000}, {"instructions on drawn lattices", raw, 8000, 250000}, {"edpc circuits", edpc, 800, 20000}, {"large circuits", large, 100, 3000, 120}, {"timeouts", timeouts, 40, 1000}})
