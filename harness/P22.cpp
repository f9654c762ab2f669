// A stand-in for libpq holding one table in memory, which answers the queries it understands.
#include "cli.hpp"
#include <lsqecc/gates/postgres_gate_stream.hpp>
#include <libpq-fe.h>
#include <regex>
using namespace vf;
namespace {
using V = std::vector<std::string>;
struct Value { bool null = false; std::string text; };
using Row = std::map<std::string, Value>;
struct Db { std::vector<Row> rows; int fail_at = -1, queries = 0; bool refuse = false, shuffle = false; std::string conninfo, error; size_t open = 0; pbt::Src* s = nullptr; std::vector<std::string> log; } db;
std::string low(std::string t) { for (auto& ch : t) ch = std::tolower(ch); return t; }
std::string trim(const std::string& t) { auto a = t.find_first_not_of(" \t\n;"), b = t.find_last_not_of(" \t\n;"); return a == std::string::npos ? "" : t.substr(a, b - a + 1); }
std::string column(std::string c) { c = trim(c); if (auto p = c.rfind('.'); p != std::string::npos) c = c.substr(p + 1); std::erase(c, '"'); return c; }
V split(const std::string& t, char d) { V v; std::stringstream s(t); std::string x; while (std::getline(s, x, d)) v.push_back(trim(x)); return v; }
double number(const Value& v) { return v.null ? NAN : strtod(v.text.c_str(), nullptr); }
}
struct pg_conn {}; struct pg_result { ExecStatusType st; V cols; std::vector<std::vector<Value>> rows; };
static PGresult* failed(const std::string& m) { db.error = m; return new pg_result{PGRES_FATAL_ERROR}; }
static PGresult* answer(std::string q, int n, const char* const* params) {
    db.log.push_back(q); if (db.queries++ == db.fail_at) return failed("ERROR: the server closed the connection unexpectedly"); for (int i = n; i >= 1; --i) { std::string k = "$" + std::to_string(i); for (size_t p; (p = q.find(k)) != std::string::npos;) q.replace(p, k.size(), params[i - 1]); }
    std::string t = low(trim(std::regex_replace(q, std::regex("\\s+"), " "))); if (t.rfind("create index", 0) == 0 || t.rfind("set ", 0) == 0 || t == "begin" || t == "commit") return new pg_result{PGRES_COMMAND_OK};
    static const std::regex sel("select (.*?) from ([a-z_]+)(?: as [a-z]+)?(?: where (.*?))?(?: order by (.*?))?(?: limit ([0-9]+))?"); std::smatch m; if (!std::regex_match(t, m, sel)) return failed("ERROR: syntax error: " + q); if (m[2] != "layered_lscom") return failed("ERROR: relation \"" + m[2].str() + "\" does not exist");
    std::vector<Row> rows; std::string where = m[3];
    struct Cond { std::string c, o; double b; }; std::vector<Cond> conds; if (!where.empty()) for (auto cond : split(std::regex_replace(where, std::regex(" and "), "&"), '&')) {
        static const std::regex cmp("\\(?([a-z_.\"]+) ?(=|<>|!=|<=|>=|<|>) ?'?(-?[0-9.]+)'?\\)?"); std::smatch k; if (!std::regex_match(cond, k, cmp)) return failed("ERROR: cannot read condition " + cond); auto c = column(k[1]); if (!db.rows.empty() && !db.rows[0].count(c)) return failed("ERROR: column \"" + c + "\" does not exist"); conds.push_back({c, k[2], std::stod(k[3])}); }
    for (auto& r : db.rows) { bool ok = true; for (auto& [c, o, b] : conds) { double a = number(r.at(c)); ok = ok && (o == "=" ? a == b : o == "<" ? a < b : o == ">" ? a > b : o == "<=" ? a <= b : o == ">=" ? a >= b : a != b && !std::isnan(a)); } if (ok) rows.push_back(r); }
    // Without an order asked for, a database is free to choose one
    if (db.shuffle) db.s->shuffle(rows);
    if (!m[4].str().empty()) { auto keys = split(m[4], ','); for (size_t i = keys.size(); i--;) { bool desc = keys[i].ends_with(" desc"); auto c = column(keys[i].substr(0, keys[i].find(' '))); std::stable_sort(rows.begin(), rows.end(), [&](auto& a, auto& b) { return desc ? number(a.at(c)) > number(b.at(c)) : number(a.at(c)) < number(b.at(c)); }); } }
    auto* res = new pg_result{PGRES_TUPLES_OK}; static const V all{"id", "prev_q1", "type", "param", "control_q", "target_q", "layer"}; auto what = split(m[1], ',');
    static const std::regex agg("(count|max|min) ?\\((?:distinct )?(.*?)\\)(?: (?:as )?([a-z_]+))?"); std::smatch g; if (std::regex_match(what[0], g, agg)) {
        std::vector<Value> row; for (auto& w : what) { if (!std::regex_match(w, g, agg)) { delete res; return failed("ERROR: cannot read " + w); } std::string f = g[1], c = column(g[2]); res->cols.push_back(g[3].matched ? g[3].str() : f); if (f == "count") row.push_back({false, std::to_string(rows.size())}); else { Value best{true}; for (auto& r : rows) if (!r.at(c).null && (best.null || (f == "max" ? number(r.at(c)) > number(best) : number(r.at(c)) < number(best)))) best = r.at(c); row.push_back(best); } }
        res->rows.push_back(row); return res; }
    if (what == V{"*"} || what == V{"layered_lscom.*"}) what = all; if (what[0].starts_with("distinct ")) { delete res; return failed("ERROR: no distinct here"); }
    for (auto& w : what) { auto c = column(w); if (std::find(all.begin(), all.end(), c) == all.end()) { delete res; return failed("ERROR: column \"" + c + "\" does not exist"); } res->cols.push_back(c); } size_t lim = m[5].matched ? std::stoul(m[5]) : rows.size();
    for (size_t i = 0; i < rows.size() && i < lim; ++i) { std::vector<Value> v; for (auto& c : res->cols) v.push_back(rows[i].at(c)); res->rows.push_back(v); } return res;
}
extern "C" {
PGconn* PQconnectdb(const char* s) { db.conninfo = s; ++db.open; return new pg_conn; }
void PQfinish(PGconn* c) { if (c) --db.open; delete c; }
ConnStatusType PQstatus(const PGconn*) { return db.refuse ? CONNECTION_BAD : CONNECTION_OK; }
char* PQerrorMessage(const PGconn*) { return db.refuse ? (char*)"connection refused" : db.error.data(); }
PGresult* PQexecParams(PGconn*, const char* q, int n, const Oid*, const char* const* p, const int*, const int*, int) { return answer(q, n, p); }
PGresult* PQexec(PGconn*, const char* q) { return answer(q, 0, nullptr); }
void PQclear(PGresult* r) { delete r; }
ExecStatusType PQresultStatus(const PGresult* r) { return r->st; }
int PQnfields(const PGresult* r) { return r->cols.size(); }
char* PQfname(const PGresult* r, int i) { return (char*)r->cols.at(i).c_str(); }
int PQntuples(const PGresult* r) { return r->rows.size(); }
char* PQgetvalue(const PGresult* r, int i, int j) { return (char*)r->rows.at(i).at(j).text.c_str(); }
int PQgetisnull(const PGresult* r, int i, int j) { return r->rows.at(i).at(j).null; }
}
namespace {
// What a row stands for: a gate, nothing, or something that cannot be handled.
struct Means { std::optional<gates::Gate> gate; bool refused = false; };
struct Kind { int type; bool pow, two, skip, bad; };
Means meaning(int type, uint32_t c, uint32_t t, double p) {
    switch (type) {
        case 0: case 1: case 13: case 14: return {};
        case 5: case 6: case 7: if (p == 1 || p == -1) return {gates::Z(c)}; if (p == 0.5) return {gates::S(c)}; if (p == -0.5) return {gates::SDg(c)}; if (p == 0.25) return {gates::T(c)}; if (p == -0.25) return {gates::TDg(c)}; return {std::nullopt, true};
        case 8: return {gates::H(c)}; case 9: return {gates::X(c)}; case 10: return {gates::Z(c)}; case 17: case 18: return {gates::CNOT(t, c)};
        case 27: return {gates::S(c)}; case 28: return {gates::SDg(c)}; case 29: return {gates::T(c)}; case 30: return {gates::TDg(c)}; default: return {std::nullopt, true};
    }
}
struct Stored { uint32_t n; std::map<int, std::vector<Means>> layers; int last = -1; std::vector<G> gates; bool refused = false; int first_refused = 0; };
std::string num(double p, pbt::Src& s) { std::string t = pbt::str(p); if (p == int(p) && s.chance(1, 2)) t += ".0"; if (p == 0.5 && s.chance(1, 3)) t = "0.50"; return t; }
Stored gen_db(pbt::Src& s, pbt::Case& c, bool can_refuse, bool orderly = false) {
    db = Db{}; db.s = &s; Stored d; bool large = can_refuse && s.chance(1, 100); d.n = 1 + s.upto(large ? 80 : 8); int id = 0; auto put = [&](int type, Value p, Value a, Value b, int layer) { db.rows.push_back({{"id", {false, std::to_string(id++)}}, {"prev_q1", {true, ""}}, {"type", {false, std::to_string(type)}}, {"param", p}, {"control_q", a}, {"target_q", b}, {"layer", {false, std::to_string(layer)}}}); };
    auto q = [](uint32_t x) { return Value{false, std::to_string(x)}; }; Value none{true, ""}; for (uint32_t i = 0; i < d.n; ++i) put(0, none, q(i), none, 0);
    int layers = s.upto(large ? 25 : 9); for (int l = 1; l <= layers; ++l) {
        int k = s.chance(1, 6) ? 0 : 1 + s.below(large ? 80 : 4); std::vector<uint32_t> free; for (uint32_t i = 0; i < d.n; ++i) free.push_back(i); s.shuffle(free); size_t at = 0; bool idle = s.chance(1, 5);
        for (; k-- && at < free.size();) {
            static const std::vector<int> one{8, 9, 10, 27, 28, 29, 30, 7, 5, 6, 7}, skip{14, 13, 1}, no{2, 3, 4, 11, 12, 15, 16, 19, 20, 21, 22, 23, 24, 25, 26, 31, 32, 99}; static const std::vector<double> pw{1, -1, 0.5, -0.5, 0.25, -0.25}, badpw{0, 2, 0.125, 0.75, -0.75, 1.5, 0.2501};
            bool bad = can_refuse && s.chance(1, large ? 4000 : 15); int type = idle || s.chance(1, 8) ? s.pick(skip) : bad && s.chance(1, 2) ? s.pick(no) : at + 1 < free.size() && s.chance(1, 3) ? (s.chance(1, 2) ? 18 : 17) : s.pick(one); bool two = type == 17 || type == 18 || type == 15 || type == 16, pow = type >= 5 && type <= 8; if (two && at + 1 >= free.size()) continue;
            uint32_t a = free[at++], b = two ? free[at++] : 0; double p = pow && type != 8 ? (bad ? s.pick(badpw) : s.pick(pw)) : 1; auto m = meaning(type, a, b, p); d.layers[l].push_back(m); d.last = l; if (m.refused && !d.refused) d.refused = true, d.first_refused = l;
            if (m.gate) { G g; g.a = a; if (two) { g.k = G::CX; g.a = a; g.b = b; g.ct = gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST; g.ap = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL; } else { g.k = G::SQ; g.t = std::get<gates::BasicSingleQubitGate>(*m.gate).gate_type; } d.gates.push_back(g); }
            c.desc << "layer " << l << " type " << type << " control " << a << (two ? " target " + std::to_string(b) : "") << (pow ? " param " + pbt::str(p) : "") << "\n"; put(type, pow || two || s.chance(1, 4) ? Value{false, num(p, s)} : none, q(a), two ? q(b) : s.chance(1, 4) ? q(s.below(d.n)) : none, l);
        } }
    if (s.chance(1, 2)) for (uint32_t i = 0; i < d.n; ++i) put(1, none, q(i), none, layers + 1); c.desc << d.n << " qubits\n";
    if (!orderly && s.chance(1, 2)) { db.shuffle = true; } return d;
}
void stream(pbt::Src& s, pbt::Case& c) {
    auto d = gen_db(s, c, true); if (s.chance(1, 12)) db.refuse = true; std::string port = std::to_string(1 + s.below(65535)); std::vector<gates::Gate> got; std::optional<std::string> e; if (s.chance(1, 10)) db.fail_at = s.below(8);
    { std::unique_ptr<PandoraPostgresGateStream> st; e = pbt::thrown([&] { st = std::make_unique<PandoraPostgresGateStream>("localhost", port, "thebase"); }); c.check(db.conninfo.find("port=" + port) != std::string::npos && db.conninfo.find("host=localhost") != std::string::npos && db.conninfo.find("dbname=thebase") != std::string::npos, "connects to " + db.conninfo);
      if (db.refuse) { c.check(e.has_value(), "a refused connection goes unnoticed"); c.label("no connection"); return; } bool failed = db.fail_at >= 0 && db.queries > db.fail_at; if (e) { if (!failed) c.fail("the stream is not made: " + *e + (db.log.empty() ? "" : "\nlast query: " + db.log.back())); c.label("query failed"); return; }
      c.eq(st->get_qreg().size, d.n, "qubits in the register");
      e = pbt::thrown([&] { while (true) { bool h = st->has_next_gate(); for (int k = s.below(3); k--;) c.check(st->has_next_gate() == h, "has_next_gate changes its mind"); if (!h) break; got.push_back(st->get_next_gate()); c.check(got.size() <= d.gates.size(), [&] { std::string t; for (auto& g : got) t += canon(g) + ", "; return "more gates than stored: " + t + pbt::str(d.gates.size()) + "\n" + pbt::list(db.log, "\n"); }); } }); }
    c.eq(db.open, 0u, "connections left open"); size_t at = 0; bool failed = db.fail_at >= 0 && db.queries > db.fail_at; if (failed) { c.check(e.has_value(), "a query failed, and the circuit simply ends"); c.label("query failed"); }
    for (auto& [l, v] : d.layers) { std::multiset<std::string> want, is; size_t n = 0; for (auto& m : v) if (m.gate) want.insert(canon(*m.gate)), ++n; if (e && at + n > got.size()) break; for (size_t i = 0; i < n && at < got.size(); ++i) is.insert(canon(got[at++])); if (is != want) c.fail("layer " + std::to_string(l) + " holds " + pbt::list(want) + ", the stream gives " + pbt::list(is)); }
    if (!e) { c.check(!d.refused, "a row of layer " + std::to_string(d.first_refused) + " cannot be handled, and was not refused"); c.eq(got.size(), d.gates.size(), "gates"); }
    else if (!failed && !d.refused) c.fail("refused: " + *e + (db.log.empty() ? "" : "\nlast query: " + db.log.back()));
    c.label_if(d.refused, "a row that cannot be handled"); bool gap = false; for (int l = 1; l < d.last; ++l) { bool any = false; for (auto& m : d.layers[l]) any = any || m.gate || m.refused; gap = gap || !any; } c.label_if(gap, "an idle layer before the end"); c.label_if(db.shuffle, "rows in any order"); c.label_if(d.gates.size() > 100, "more than 100 gates"); c.nontrivial(d.gates.size() >= 2);
}
// The slicer reading the database does what it does with the same circuit as QASM.
void slicing(pbt::Src& s, pbt::Case& c) {
    auto d = gen_db(s, c, false, true); if (d.gates.size() > 10) c.discard(); std::string q = "OPENQASM 2.0;\nqreg q[" + std::to_string(d.n) + "];\n"; for (auto& g : d.gates) q += vf::qasm(g, "q") + "\n";
    bool slices = s.chance(1, 2); V a{"-L", slices ? "edpc" : s.pick(V{"compact", "edpc", "compact_no_clogging"})}; if (s.chance(1, 3)) a = a + V{"-P", s.pick(V{"stream", "wave"})}; a = a + V{"--disttime", std::to_string(1 + s.below(5))}; if (!slices) a.push_back("--printlli"); c.desc << join(a) << "\n"; std::string port = std::to_string(1 + s.below(65535)); bool p = s.chance(1, 2);
    auto x = slicer(V{"-I", s.chance(1, 2) ? "pandora" : "p"} + a + (p ? V{"--port", port} : V{}) + V{"--graceful"}, ""); auto y = slicer(V{"-I", "qasm", "--op-ids"} + a + V{"--graceful"}, q);
    c.check(db.conninfo.find(std::string("port=") + (p ? port : "5432")) != std::string::npos, "connects to " + db.conninfo); c.eq(x.code, y.code, "exit code (" + x.err + ")"); if (x.out != y.out) c.fail("from the database:\n" + x.out.substr(0, 1500) + "\n---- from QASM:\n" + y.out.substr(0, 1500)); c.nontrivial(d.gates.size() >= 2); c.label(slices ? "slices" : "instructions");
}
}
PBT_MAIN("P22", "two gates or more are stored", {{"streams", stream, 12000, 300000}, {"slicing", slicing, 400, 10000}})
