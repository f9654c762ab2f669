#include "pbt.hpp"
#include <lstk/lstk.hpp>
#include <cstring>
using Strings = std::vector<std::string>;
static std::string quote(const std::string& s) { std::string o = "\""; for (unsigned char ch : s) { char b[8]; if (ch < 32 || ch > 126 || ch == '"' || ch == '\\') { snprintf(b, 8, "\\x%02x", ch); o += b; } else o += char(ch); } return o + "\""; }
static std::string quote(const Strings& v) { std::string o; for (auto& s : v) o += (o.empty() ? "" : " ") + quote(s); return "{" + o + "}"; }
// Texts over a small alphabet, so that delimiters and their beginnings are frequent.
static std::string gen(pbt::Src& s, int max, bool any = true) { static const std::string al = "ab,;> -q*/1\t\n"; int n = s.below(max + 1); if (max > 10 && s.chance(1, 20)) n = s.below(40 * max); int span = 2 + s.below(al.size() - 1); std::string t; bool wild = any && s.chance(1, 8); while (n--) t += wild ? char(s.below(256)) : al[s.below(span)]; return t; }
static Strings ref_split(const std::string& t, const std::string& d) { Strings r; if (t.empty()) return r; size_t at = 0; for (;;) { size_t k = t.find(d, at); if (k == std::string::npos) break; r.push_back(t.substr(at, k - at)); at = k + d.size(); } r.push_back(t.substr(at)); return r; }
template<class V> Strings strs(const V& v) { Strings r; for (auto& x : v) r.emplace_back(x.data() ? x : decltype(x)("")); return r; }
// The parts lie inside the text that was split (empty ones may lie anywhere).
static void inside(pbt::Case& c, const std::vector<std::string_view>& v, std::string_view t) { for (auto& x : v) if (!x.empty()) c.check(x.data() >= t.data() && x.data() + x.size() <= t.data() + t.size(), "a part does not lie in the text"); }
static void splits(pbt::Src& s, pbt::Case& c) {
    std::string t = gen(s, 30); bool one = s.chance(1, 2); std::string d = one ? std::string(1, s.chance(1, 8) ? char(s.below(256)) : ",; ab"[s.below(5)]) : gen(s, 3); if (d.empty()) d = "ab"; c.desc << quote(t) << " on " << quote(d) << "\n";
    // The text is copied to a buffer of its own size, so that reading past its end is noticed
    std::vector<char> exact(t.begin(), t.end()); std::string_view sv(exact.data(), exact.size()); auto want = ref_split(t, d);
    std::vector<std::string_view> got = one ? lstk::split_on(sv, d[0]) : lstk::split_on(sv, std::string_view(d)); auto parts = strs(got); inside(c, got, sv);
    c.eq(quote(parts), quote(want), "parts"); c.eq(quote(lstk::join(parts, d)), quote(t), "parts joined again"); for (auto& p : parts) c.check(p.find(d) == std::string::npos, "a part contains the delimiter");
    if (one) { c.eq(quote(lstk::split_on_get_strings(sv, d[0])), quote(want), "parts as strings"); c.eq(lstk::contains(sv, d[0]), t.find(d) != std::string::npos, "contains");
        if (t.find(d) == std::string::npos) c.check(bool(pbt::thrown([&] { lstk::split_on_first(sv, d[0]); })), "splitting on a missing delimiter is not refused"); else { auto f = lstk::split_on_first(sv, d[0]); inside(c, f, sv); c.eq(f.size(), 2u, "parts of split_on_first"); c.eq(quote(strs(f)), quote(Strings{t.substr(0, t.find(d)), t.substr(t.find(d) + 1)}), "parts of split_on_first"); } }
    c.nontrivial(want.size() >= 3); c.label(one ? "character" : "string"); c.label_if(!t.empty() && t.size() >= d.size() && t.compare(t.size() - d.size(), d.size(), d) == 0, "ends with the delimiter");
}
static void strings(pbt::Src& s, pbt::Case& c) {
    std::string t = gen(s, 30), w = gen(s, 4); char ch = ",;ab>"[s.below(5)]; c.desc << quote(t) << " " << quote(std::string(1, ch)) << " -> " << quote(w) << "\n"; std::vector<char> exact(t.begin(), t.end());
    std::string want; int hits = 0; for (char x : t) if (x == ch) { want += w; ++hits; } else want += x; c.eq(quote(lstk::str_replace(std::string_view(exact.data(), exact.size()), ch, w)), quote(want), "replaced");
    auto sp = [](char x) { return x == ' ' || (x >= 9 && x <= 13); }; std::string l = t, r = t; while (!l.empty() && sp(l[0])) l.erase(0, 1); while (!r.empty() && sp(r.back())) r.pop_back(); std::string gl = t, gr = t; lstk::ltrim(gl); lstk::rtrim(gr); c.eq(quote(gl), quote(l), "trimmed at the start"); c.eq(quote(gr), quote(r), "trimmed at the end");
    c.nontrivial(hits >= 2); c.label_if(l != t || r != t, "something to trim");
}
static void joins(pbt::Src& s, pbt::Case& c) {
    std::string d = gen(s, 3); int n = s.chance(1, 25) ? s.below(150) : s.below(6); Strings v; std::vector<uint64_t> nums; std::vector<int> ints; std::string wv, wn, wi; tsl::ordered_set<unsigned> os; std::string wo;
    for (int i = 0; i < n; ++i) { v.push_back(gen(s, 5)); nums.push_back(s.chance(1, 4) ? s.below(~0ull) : s.below(300)); ints.push_back(int(s.below(4000)) - 2000); if (i) wv += d, wn += d, wi += d; wv += v[i]; wn += std::to_string(nums[i]); wi += std::to_string(ints[i]); unsigned o = s.below(500); if (os.insert(o).second) wo += (wo.empty() && os.size() == 1 ? "" : d) + std::to_string(o); }
    c.desc << quote(v) << " / " << pbt::list(nums) << " / " << pbt::list(ints) << " with " << quote(d) << "\n"; c.eq(quote(lstk::join(v, d)), quote(wv), "joined strings"); c.eq(quote(lstk::join(nums, d)), quote(wn), "joined numbers"); c.eq(quote(lstk::join(ints, d)), quote(wi), "joined numbers"); c.eq(quote(lstk::join(os, d)), quote(wo), "joined set"); std::vector<std::string_view> sv(v.begin(), v.end()); c.eq(quote(lstk::join(sv, d)), quote(wv), "joined string views");
    if (n >= 3) { c.eq(quote(lstk::cat(v[0], nums[0], std::string_view(v[1]), ints[1], v[2].c_str())), quote(v[0] + std::to_string(nums[0]) + v[1] + std::to_string(ints[1]) + std::string(v[2].c_str())), "concatenation"); }
    c.nontrivial(n >= 3);
}
template<class C> std::string show(const C& x) { return pbt::list(x); }
static void containers(pbt::Src& s, pbt::Case& c) {
    bool many = s.chance(1, 25); int span = 1 + s.below(many ? 2000 : 40); auto set = [&] { tsl::ordered_set<int> x; int n = s.below(many ? 600 : 20); while (n--) x.insert(s.below(span)); return x; }; auto a = set(), b = set(); c.desc << "{" << show(a) << "} {" << show(b) << "}\n";
    std::vector<int> wi, wu; for (int x : a) { wu.push_back(x); if (std::find(b.begin(), b.end(), x) != b.end()) wi.push_back(x); } for (int x : b) if (std::find(wu.begin(), wu.end(), x) == wu.end()) wu.push_back(x);
    auto sorted = [](auto x) { std::vector<int> v(x.begin(), x.end()); std::sort(v.begin(), v.end()); return pbt::list(v); }; auto i = lstk::set_intersection(a, b), u = lstk::set_union(a, b);
    c.eq(sorted(i), sorted(wi), "intersection"); c.eq(sorted(u), sorted(wu), "union"); c.eq(sorted(lstk::set_intersection(b, a)), sorted(i), "intersection the other way round"); c.eq(sorted(lstk::set_union(b, a)), sorted(u), "union the other way round"); c.eq(i.size() + u.size(), a.size() + b.size(), "sizes");
    // Queues, against a vector
    std::deque<std::string> dq; std::queue<std::string> q, q2; std::vector<std::string> m, m2; int ops = s.below(many ? 300 : 30); for (int k = 0; k < ops; ++k) { switch (s.below(4)) { case 0: case 1: { auto x = gen(s, 20); dq.push_back(x); q.push(x); m.push_back(x); break; } case 2: if (!m.empty()) { auto x = lstk::deque_pop(dq), y = lstk::queue_pop(q); c.eq(quote(x), quote(m[0]), "popped from a deque"); c.eq(quote(y), quote(m[0]), "popped from a queue"); m.erase(m.begin()); } break; case 3: { auto x = gen(s, 20); q2.push(x); m2.push_back(x); } } c.eq(quote(Strings(dq.begin(), dq.end())), quote(m), "deque"); c.eq(q.size(), m.size(), "queue size"); }
    std::vector<std::string> ve = m; lstk::vector_extend(ve, m2); auto all = m; all.insert(all.end(), m2.begin(), m2.end()); c.eq(quote(ve), quote(all), "vector extended"); lstk::queue_extend(q, q2); c.check(q2.empty(), "the source of queue_extend is not empty"); std::vector<std::string> left; while (!q.empty()) left.push_back(lstk::queue_pop(q)); c.eq(quote(left), quote(all), "queue extended");
    std::optional<int> o; if (s.chance(1, 2)) o = s.below(9); try { int x = lstk::get_or_throw(o, std::out_of_range("gone")); c.check(o && x == *o, "get_or_throw"); } catch (const std::out_of_range& e) { c.check(!o && !strcmp(e.what(), "gone"), "get_or_throw"); }
    int x = s.below(50), y = s.below(50); lstk::pair_hash<int, int> h; std::unordered_set<std::pair<int, int>, lstk::pair_hash<int, int>> hs{{x, y}, {y, x}}; c.check(h({x, y}) == h(std::pair<int, int>(x, y)) && hs.count({x, y}) && hs.size() == (x == y ? 1u : 2u), "pair_hash");
    c.nontrivial(wi.size() >= 2 && wu.size() > a.size()); c.label_if(ops >= 10, "ten queue operations or more");
}
PBT_MAIN("P23", "three parts or more; two replacements; three elements joined; sets that overlap in two elements and differ", {{"splitting", splits, 30000, 2000000}, {"strings", strings, 20000, 1000000}, {"joining", joins, 15000, 1000000}, {"containers", containers, 15000, 1000000}})
