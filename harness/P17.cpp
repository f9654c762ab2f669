#include "cli.hpp"
#include <lsqecc/dag/dependency_dag.hpp>
#include <lsqecc/dag/domain_dags.hpp>
namespace vf { struct Ins { int n; std::set<int> on; }; inline std::ostream& operator<<(std::ostream& o, const Ins& i) { return o << "i" << i.n << " on " << pbt::list(i.on) << ">"; } }
namespace lsqecc::dag { template<> bool CommutationTrait<vf::Ins>::can_commute(const vf::Ins& a, const vf::Ins& b) { for (int x : a.on) if (b.on.count(x)) return false; return true; } }
namespace lsqecc { template<class T> std::string text(const T& t) { std::ostringstream o; o << t; return o.str(); } }
using namespace vf; using dag::label_t;
using Edges = std::set<std::pair<label_t, label_t>>; using Nodes = std::set<label_t>;
struct Abstract {
    Nodes nodes; Edges edges;
    bool reaches(label_t a, label_t b) const { Nodes seen{a}; std::vector<label_t> q{a}; for (size_t i = 0; i < q.size(); ++i) { if (q[i] == b) return true; for (auto& [x, y] : edges) if (x == q[i] && seen.insert(y).second) q.push_back(y); } return false; }
    void expand(label_t t, const std::vector<label_t>& r) { Edges e; for (auto [a, b] : edges) e.insert({a == t ? r.back() : a, b == t ? r.front() : b}); for (size_t i = 0; i + 1 < r.size(); ++i) e.insert({r[i], r[i + 1]}); edges = e; nodes.erase(t); nodes.insert(r.begin(), r.end()); }
    void remove(label_t t) { nodes.erase(t); std::erase_if(edges, [&](auto& e) { return e.first == t || e.second == t; }); }
    Nodes heads() const { Nodes h = nodes; for (auto& e : edges) h.erase(e.second); return h; }
    Nodes tails() const { Nodes h = nodes; for (auto& e : edges) h.erase(e.first); return h; }
};
static std::string str(const Edges& e) { std::string s; for (auto& [a, b] : e) s += " " + std::to_string(a) + "->" + std::to_string(b); return s; }
template<class C> Nodes nodes(const C& v) { return Nodes(v.begin(), v.end()); }
static void same(pbt::Case& c, const dag::DirectedGraph& g, const Abstract& m) {
    Edges f, b; Nodes n, bn; for (auto& [x, to] : dag::get_edges_for_testing(g)) { n.insert(x); for (auto y : to) f.insert({x, y}); } for (auto& [y, from] : dag::get_back_edges_for_testing(g)) { bn.insert(y); for (auto x : from) b.insert({x, y}); }
    c.eq(pbt::list(n), pbt::list(m.nodes), "nodes"); c.eq(pbt::list(bn), pbt::list(m.nodes), "nodes with back edges"); c.eq(str(f), str(m.edges), "edges"); c.eq(str(b), str(m.edges), "back edges");
    c.eq(pbt::list(nodes(g.heads())), pbt::list(m.heads()), "heads"); c.eq(pbt::list(nodes(g.tails())), pbt::list(m.tails()), "tails"); c.eq(g.empty(), m.nodes.empty(), "empty");
    for (auto x : m.nodes) { Nodes su, pr; for (auto& [a, bb] : m.edges) { if (a == x) su.insert(bb); if (bb == x) pr.insert(a); } auto s = g.successors(x), p = g.predecessors(x); c.eq(pbt::list(nodes(s)), pbt::list(su), "successors"); c.eq(pbt::list(nodes(p)), pbt::list(pr), "predecessors"); c.check(s.size() == su.size() && p.size() == pr.size(), "a neighbour listed twice"); }
    auto o = g.topological_order_tails_first(); c.check(o.size() == m.nodes.size() && nodes(o) == m.nodes, "the topological order does not list every node once: " + pbt::list(o)); std::map<label_t, size_t> at; for (size_t i = 0; i < o.size(); ++i) at[o[i]] = i;
    for (auto& [a, b2] : m.edges) c.check(at[b2] < at[a], "the topological order lists a node before one of its successors: " + pbt::list(o));
}
// What Graphviz text says: the nodes with their text, plain edges, thick edges and red nodes.
struct Drawn { std::map<label_t, std::string> text; Edges edges, thick; Nodes red; };
static Drawn read_dot(pbt::Case& c, const std::string& dot) {
    Drawn d; std::istringstream in(dot); std::string l; std::getline(in, l); c.eq(l, "digraph DirectedGraph {", "first line"); bool end = false;
    while (std::getline(in, l)) {
        c.check(!end, "text after the graph"); if (l == "}") { end = true; continue; } c.check(l.size() > 3 && l[0] == ' ' && l.back() == ';', "line " + l);
        std::istringstream w(l); label_t a, b; std::string arrow; c.check(bool(w >> a), "line " + l); std::string rest; std::getline(w, rest);
        if (rest.rfind(" -> ", 0) == 0) { std::istringstream x(rest.substr(4)); x >> b; std::string tail; std::getline(x, tail); if (tail == ";") c.check(d.edges.insert({a, b}).second, "an edge twice"); else if (tail == " [penwidth=5];") d.thick.insert({a, b}); else c.fail("line " + l); }
        else if (rest == " [fontcolor=red];") d.red.insert(a);
        else if (rest == ";") c.check(d.text.emplace(a, "").second, "a node twice");
        else { auto i = rest.find("<b>"), j = rest.find("</b>"); c.check(i != std::string::npos && j != std::string::npos, "line " + l); std::string t = rest.substr(i + 3, j - i - 3); for (size_t k; (k = t.find("&gt;")) != std::string::npos;) t.replace(k, 4, "\1"); c.check(t.find('>') == std::string::npos, "unescaped text " + l); std::replace(t.begin(), t.end(), '\1', '>'); c.check(d.text.emplace(a, t).second, "a node twice"); c.check(rest.find("node: " + std::to_string(a) + "<") != std::string::npos, "label missing: " + l); }
    }
    c.check(end, "the graph is not closed"); return d;
}
static void graph(pbt::Src& s, pbt::Case& c) {
    dag::DirectedGraph g; Abstract m; label_t fresh = s.below(3); int n = 1 + (s.chance(1, 100) ? s.below(120) : s.below(40)), expansions = 0, removals = 0; size_t widest = 0;
    auto any = [&] { auto it = m.nodes.begin(); std::advance(it, s.below(m.nodes.size())); return *it; };
    auto refused = [&](auto f, const std::string& what) { c.desc << what << " (refused)\n"; c.check(bool(pbt::thrown(f)), what + " is not refused"); };
    for (int i = 0; i < n; ++i) {
        switch (m.nodes.empty() ? 0 : s.weighted({4, 10, 2, 2, 4, 1})) {
            case 0: { label_t x = s.chance(1, 6) && !m.nodes.empty() ? any() : fresh++; c.desc << "add_node " << x << "\n"; g.add_node(x); m.nodes.insert(x); break; }
            case 1: { label_t a = s.chance(1, 4) ? fresh++ : any(), b = s.chance(1, 4) ? fresh++ : any(); if (a == b || m.reaches(b, a)) { if (a == b || m.reaches(a, b)) break; std::swap(a, b); } c.desc << "add_edge " << a << " " << b << "\n"; g.add_edge(a, b); m.nodes.insert(a); m.nodes.insert(b); m.edges.insert({a, b}); break; }
            case 2: { if (m.edges.empty()) break; auto it = m.edges.begin(); std::advance(it, s.below(m.edges.size())); auto e = *it; c.desc << "remove_edge " << e.first << " " << e.second << "\n"; g.remove_edge(e.first, e.second); m.edges.erase(e); break; }
            case 3: { label_t x = any(); size_t deg = 0; for (auto& e : m.edges) deg += e.first == x || e.second == x; widest = std::max(widest, deg); c.desc << "remove_node " << x << "\n"; g.remove_node(x); m.remove(x); ++removals; break; }
            case 4: { label_t x = any(); std::vector<label_t> r; int k = 1 + s.below(4); while (k--) r.push_back(fresh++); c.desc << "expand " << x << " into " << pbt::list(r) << "\n"; g.expand(x, r); m.expand(x, r); ++expansions; break; }
            case 5: { label_t x = any(), out = 100000; switch (s.below(8)) { case 0: refused([&] { g.remove_node(out); }, "removing a node that is not there"); break; case 1: refused([&] { g.remove_edge(x, out); }, "removing an edge to a node that is not there"); break; case 2: refused([&] { g.remove_edge(out, x); }, "removing an edge from a node that is not there"); break; case 3: refused([&] { g.expand(x, {}); }, "expanding into nothing"); break; case 4: refused([&] { g.expand(out, {out + 1}); }, "expanding a node that is not there"); break; case 5: refused([&] { g.expand(x, {out, any()}); }, "expanding into a node that is there"); break; case 6: refused([&] { g.successors(out); }, "asking for successors of a node that is not there"); refused([&] { g.predecessors(out); }, "asking for predecessors of a node that is not there"); break;
                case 7: { label_t y = any(); if (!m.edges.count({x, y})) refused([&] { g.remove_edge(x, y); }, "removing an edge that is not there"); break; } } break; }
        }
        same(c, g, m);
    }
    dag::Map<label_t, std::string> names; for (auto x : m.nodes) if (s.chance(1, 2)) names[x] = "n" + std::to_string(x) + "->"; auto d = read_dot(c, [&] { std::stringstream o; g.to_graphviz(o, names); return o.str(); }());
    c.eq(d.text.size(), m.nodes.size(), "nodes drawn"); for (auto x : m.nodes) c.eq(d.text[x], names.count(x) ? names[x] : "", "text drawn"); c.eq(str(d.edges), str(m.edges), "edges drawn");
    c.nontrivial(expansions && removals && m.edges.size() >= 3); c.label_if(widest >= 3, "removed a node with three edges or more"); c.label_if(m.nodes.size() >= 10, "ten nodes or more");
}
static void histories(pbt::Src& s, pbt::Case& c) {
    dag::DependencyDag<Ins> g; Abstract m; std::map<label_t, Ins> ins; Edges near; Nodes hot; label_t next = 0; int n = 1 + (s.chance(1, 100) ? s.below(100) : s.below(30)), made = 0, pops = 0, promoted = 0, rewired = 0; int qubits = 2 + s.below(5);
    auto fresh = [&] { Ins i{made++, {}}; int k = 1 + s.below(3); while (k--) i.on.insert(s.below(qubits)); return i; };
    auto any = [&](const Nodes& v) { auto it = v.begin(); std::advance(it, s.below(v.size())); return *it; };
    for (int i = 0; i < n; ++i) {
        switch (m.nodes.empty() ? 0 : s.weighted({6, 1, 5, 5, 1})) {
            case 0: { auto x = fresh(); c.desc << "push " << x << "\n"; auto copy = x; label_t l = g.push_instruction_based_on_commutation(std::move(copy)); c.eq(l, next, "label"); ++next; for (auto y : m.nodes) { bool share = false; for (int q : ins[y].on) share |= x.on.count(q) > 0; if (share) m.edges.insert({y, l}); } m.nodes.insert(l); ins[l] = x; break; }
            case 1: { auto x = fresh(); c.desc << "add alone " << x << "\n"; auto copy = x; label_t l = g.add_instruction_isolated(std::move(copy)); c.eq(l, next, "label"); ++next; m.nodes.insert(l); ins[l] = x; break; }
            case 2: { label_t h = any(m.heads()); c.desc << "pop " << h << "\n"; g.pop_head(h); ++pops; for (auto e : Edges(near)) if (e.first == h) { near.erase(e); hot.insert(e.second); ++promoted; } hot.erase(h); m.remove(h); ins.erase(h); break; }
            case 3: { label_t t = s.chance(1, 2) ? any(m.heads()) : any(m.nodes); bool prox = !s.chance(1, 3); std::vector<Ins> r; std::vector<label_t> ls; int k = 1 + s.below(4); while (k--) { r.push_back(fresh()); ls.push_back(next++); } c.desc << "expand " << t << " into"; for (size_t j = 0; j < r.size(); ++j) { c.desc << " " << ls[j] << ":" << r[j]; ins[ls[j]] = r[j]; } c.desc << (prox ? ", proximate\n" : "\n");
                c.eq(g.expand(t, std::move(r), prox), ls[0], "start of the replacement"); m.expand(t, ls); ins.erase(t); Edges e; for (auto [a, b] : near) { rewired += a == t || b == t; e.insert({a == t ? ls.back() : a, b == t ? ls.front() : b}); } near = e; if (prox) for (size_t j = 0; j + 1 < ls.size(); ++j) near.insert({ls[j], ls[j + 1]}); if (hot.erase(t)) hot.insert(ls[0]);
                if (s.chance(1, 3) && m.heads().count(ls[0])) { c.desc << "proximate " << ls[0] << "\n"; g.make_proximate(ls[0]); hot.insert(ls[0]); } break; }
            case 4: { label_t h = any(m.heads()); c.desc << "proximate " << h << "\n"; g.make_proximate(h); hot.insert(h); break; }
        }
        same(c, dag::get_graph_for_testing(g), m); c.eq(g.empty(), m.nodes.empty(), "empty"); auto a = g.applicable_instructions(), p = g.proximate_instructions();
        c.eq(pbt::list(nodes(a)), pbt::list(m.heads()), "applicable instructions"); c.eq(pbt::list(nodes(p)), pbt::list(hot), "proximate instructions"); c.check(a.size() == nodes(a).size() && p.size() == hot.size(), "an instruction listed twice");
        for (auto x : m.nodes) c.eq(pbt::str(g.at(x)), pbt::str(ins[x]), "instruction of a label");
    }
    auto d = read_dot(c, dag::to_graphviz(g)); for (auto x : m.nodes) c.eq(d.text[x], pbt::str(ins[x]), "text drawn"); c.eq(d.text.size(), m.nodes.size(), "nodes drawn"); c.eq(str(d.edges), str(m.edges), "edges drawn"); c.eq(str(d.thick), str(near), "proximate dependencies drawn"); c.eq(pbt::list(d.red), pbt::list(hot), "proximate instructions drawn");
    c.nontrivial(pops >= 2 && (promoted || rewired)); c.label_if(promoted, "proximate successor promoted"); c.label_if(rewired >= 2, "proximate relations rewired");
}
template<class I> void programs(pbt::Case& c, const dag::DependencyDag<I>& g, const std::vector<I>& v, const std::string& cli) {
    Abstract m; for (size_t j = 0; j < v.size(); ++j) { m.nodes.insert(j); for (size_t i = 0; i < j; ++i) if (!dag::CommutationTrait<I>::can_commute(v[i], v[j])) m.edges.insert({i, j}); }
    same(c, dag::get_graph_for_testing(g), m); for (size_t i = 0; i < v.size(); ++i) c.eq(lsqecc::text(g.at(i)), lsqecc::text(v[i]), "instruction of a node");
    auto d = read_dot(c, cli); c.eq(d.text.size(), v.size(), "nodes printed"); for (size_t i = 0; i < v.size(); ++i) c.eq(d.text[i], lsqecc::text(v[i]), "text printed"); c.eq(str(d.edges), str(m.edges), "edges printed"); c.check(d.red.empty() && d.thick.empty(), "proximate relations in a fresh graph");
    c.nontrivial(v.size() >= 4 && m.edges.size() >= 2 && m.edges.size() * 2 < v.size() * (v.size() - 1)); c.label_if(v.size() >= 8, "eight instructions or more");
}
static void of_programs(pbt::Src& s, pbt::Case& c) {
    Opt o; o.cli = true; o.max_gates = 10; auto k = gen_circuit(s, c, o); std::optional<TempFile> lay; auto args = std::vector<std::string>{"-I", "qasm"} + k.opts; if (!k.layout_text.empty()) { lay.emplace(k.layout_text); args = args + std::vector<std::string>{"-l", lay->path}; }
    if (s.chance(1, 2)) { // the circuit as it is read
        std::istringstream in(k.qasm); std::vector<gates::Gate> v; { GateStreamFromFile f(in); while (f.has_next_gate()) v.push_back(f.get_next_gate()); } std::istringstream in2(k.qasm); GateStreamFromFile f(in2);
        auto g = dag::full_dependency_dag_from_gate_stream(f); auto said = slicer(args + std::vector<std::string>{"--printdag", "input"}, k.qasm); c.eq(said.code, 0, "exit code"); c.label("gates"); programs(c, g, v, said.out);
    } else {
        VecLS st; st.v = k.prog; st.core = k.core; auto g = dag::full_dependency_dag_from_instruction_stream(st); auto said = slicer(args + std::vector<std::string>{"--printdag", "processedlli"}, k.qasm); c.eq(said.code, 0, "exit code"); c.label("instructions"); programs(c, g, k.prog, said.out);
    }
}
PBT_MAIN("P17", "a history with two removals that promotes or rewires a proximate relation (graphs: expansions, removals and three edges left), or a program of four instructions with some but not all pairs ordered", {{"graphs", graph, 6000, 300000}, {"histories", histories, 8000, 400000}, {"programs", of_programs, 1500, 60000}})
