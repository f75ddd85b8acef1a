// Self-test of the models of the standard and LLVM libraries: the same computation symbolically and natively.
#include "sym.h"
#include <algorithm>
#include <array>
#include <bitset>
#include <cctype>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/ArrayRef.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/DenseSet.h>
#include <llvm/ADT/STLExtras.h>
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/ADT/SmallSet.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/ADT/StringMap.h>
#include <llvm/ADT/StringRef.h>
#include <llvm/ADT/StringSet.h>
#include <llvm/ADT/StringSwitch.h>
#include <llvm/ADT/Twine.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/Format.h>
using namespace std;
static void obs(const string &s) { sym_assert(true, "ok"); sym_observe("size", s.size()); uint64_t h = 7; for (char c : s) h = h * 31 + (unsigned char)c; sym_observe("hash", h); }
static string st() { return sym_string("s", 4); }
HARNESS(x_map) { sym_assert(true, "reached"); map<int, string> m; int k = sym_int("k", 0, 3); m[1] = "one"; m[2] = "two"; m.emplace(3, "three"); m.insert({0, "zero"}); auto f = m.find(k); sym_assert(f != m.end(), "found"); obs(f->second); m.erase(k); sym_observe("n", m.size()); sym_observe("c", m.count(k)); for (auto &[a, b] : m) { obs(b); sym_observe("a", a); } auto lb = m.lower_bound(2); sym_observe("lb", lb == m.end() ? 9 : lb->first); try { m.at(k); sym_assert(false, "at"); } catch (const out_of_range &) {} m.try_emplace(7, "x"); m.insert_or_assign(7, "y"); obs(m[7]); multimap<int, int> mm; mm.insert({1, 2}); mm.insert({1, 3}); sym_observe("eq", distance(mm.equal_range(1).first, mm.equal_range(1).second)); }
HARNESS(x_set) { sym_assert(true, "reached"); set<string> s; s.insert(st()); s.insert("abcd"); sym_observe("n", s.size()); set<int, greater<int>> g{3, 1, 2}; for (int x : g) sym_observe("g", x); multiset<int> ms{1, 1}; ms.insert(sym_int("v", 0, 2)); sym_observe("c", ms.count(1)); set<pair<int, int>> sp; sp.insert({1, 2}); sym_observe("p", sp.count(make_pair(1, 2))); }
HARNESS(x_uset) { sym_assert(true, "reached"); unordered_set<string> s; s.insert(st()); s.insert("abcd"); sym_observe("n", s.size()); unordered_map<string, int> m; m["x"]++; m["x"]++; m[st()] = 4; sym_observe("x", m["x"]); sym_observe("c", m.count("zzzz")); m.erase("x"); sym_observe("sz", m.size()); unordered_map<int, vector<int>> um; um[3].push_back(sym_int("v", 0, 7)); for (auto &p : um) sym_observe("p", p.second.back()); unordered_multimap<int, int> u2; u2.insert({1, 1}); u2.insert({1, 2}); sym_observe("u2", u2.count(1)); }
HARNESS(x_seq) { sym_assert(true, "reached"); list<int> l{3, 1, 2}; l.push_front(sym_int("v", 0, 4)); l.sort(); l.unique(); l.remove(2); for (int x : l) sym_observe("l", x); deque<int> d{1, 2}; d.push_front(0); d.push_back(3); d.pop_front(); sym_observe("d", d.front() + d[1] + d.back()); forward_list<int> f{1, 2}; f.push_front(7); sym_observe("f", f.front()); stack<int> s; s.push(3); s.push(4); s.pop(); sym_observe("s", s.top()); queue<int> q; q.push(1); q.push(2); q.pop(); sym_observe("q", q.front()); priority_queue<int> pq; pq.push(2); pq.push(sym_int("w", 0, 5)); sym_observe("pq", pq.top()); array<int, 3> a{1, 2, 3}; sym_observe("a", accumulate(a.begin(), a.end(), 0)); bitset<8> b(5); b.set(sym_choose("bi", 0, 7)); sym_observe("b", b.count()); }
HARNESS(x_vec) { sym_assert(true, "reached"); vector<int> v{4, 2, 9}; v.insert(v.begin() + 1, sym_int("v", 0, 9)); v.erase(v.begin()); v.resize(5); v.reserve(20); v.assign({5, 1, 4}); v.emplace_back(2); sort(v.begin(), v.end()); sym_observe("0", v[0]); reverse(v.begin(), v.end()); for (auto i = v.rbegin(); i != v.rend(); ++i) sym_observe("r", *i); try { (void)v.at(9); } catch (const out_of_range &) { sym_observe("oor", 1); } vector<bool> vb(10); vb[3] = true; sym_observe("vb", count(vb.begin(), vb.end(), true)); v.insert(v.end(), {7, 8}); v.shrink_to_fit(); swap(v[0], v[1]); vector<string> w(3, "q"); w.push_back(st()); for (auto &x : w) obs(x); vector<vector<int>> vv(2, vector<int>(2, 1)); sym_observe("vv", vv[1][1]); }
HARNESS(x_algo) { sym_assert(true, "reached"); vector<int> v{4, 2, 9, sym_int("v", 0, 10)}; stable_sort(v.begin(), v.end(), [](int a, int b) { return a > b; }); v.erase(unique(v.begin(), v.end()), v.end()); for (int x : v) sym_observe("x", x); sym_observe("any", any_of(v.begin(), v.end(), [](int x) { return x == 3; })); sym_observe("all", all_of(v.begin(), v.end(), [](int x) { return x > 1; })); sym_observe("none", none_of(v.begin(), v.end(), [](int x) { return x == 7; })); sym_observe("ci", count_if(v.begin(), v.end(), [](int x) { return x & 1; })); sym_observe("max", *max_element(v.begin(), v.end())); sym_observe("mn", *min_element(v.begin(), v.end())); auto f = find_if(v.begin(), v.end(), [](int x) { return x == 5; }); sym_observe("f", f - v.begin()); vector<int> w; copy_if(v.begin(), v.end(), back_inserter(w), [](int x) { return x < 5; }); transform(w.begin(), w.end(), w.begin(), [](int x) { return x * 2; }); sym_observe("acc", accumulate(w.begin(), w.end(), 0)); v.erase(remove_if(v.begin(), v.end(), [](int x) { return x == 4; }), v.end()); sym_observe("sz", v.size()); for_each(v.begin(), v.end(), [](int x) { sym_observe("fe", x); }); sym_observe("bs", binary_search(v.rbegin(), v.rend(), 9)); rotate(v.begin(), v.begin() + 1, v.end()); fill(v.begin(), v.end(), 1); partial_sum(v.begin(), v.end(), v.begin()); sym_observe("ps", v.back()); sym_observe("lex", lexicographical_compare(v.begin(), v.end(), w.begin(), w.end())); sym_observe("eq", equal(v.begin(), v.end(), v.begin())); auto mm = minmax({3, 1}); sym_observe("mm", mm.first); iota(v.begin(), v.end(), 3); sym_observe("io", v[0]); sym_observe("md", clamp(sym_int("c", 0, 20), 3, 7)); auto p = partition(v.begin(), v.end(), [](int x) { return x > 3; }); sym_observe("pt", p - v.begin()); nth_element(v.begin(), v.begin() + 1, v.end()); sym_observe("gcd", gcd(12, 18)); }
HARNESS(x_str) { sym_assert(true, "reached"); string s = st(); sym_observe("f", s.find('a')); sym_observe("f2", s.find("ab")); sym_observe("rf", s.rfind('b')); sym_observe("ffo", s.find_first_of("xy")); sym_observe("ffno", s.find_first_not_of(" \t")); sym_observe("flo", s.find_last_of("xy")); sym_observe("flno", s.find_last_not_of("z")); }
HARNESS(x_str2) { sym_assert(true, "reached"); string s = st(); string t = "head" + s + "tail"; t.replace(0, 4, "H"); t.insert(1, "ins"); t.erase(2, 1); t.append(3, 'x'); t.append("abc", 2); t.push_back('!'); t.pop_back(); t += 'c'; t += "lit"; obs(t); obs(t.substr(2, 5)); sym_observe("cmp", t.compare("Hns") < 0); sym_observe("cmp2", s.compare(0, 2, "ab") == 0); sym_observe("lt", s < string("mmmm")); sym_observe("ge", s >= "mm"); t.resize(30, 'r'); t.reserve(100); t.shrink_to_fit(); t.assign(4, 'k'); t.assign("xyz"); t.assign(s, 1, 2); obs(t); string r(s.rbegin(), s.rend()); obs(r); sym_observe("b", s.front() == s.back()); string u(s.begin(), s.begin() + 2); obs(u); t.clear(); sym_observe("e", t.empty()); string w = s; swap(w, t); obs(t); t = s.substr(0, 2) + s.substr(2); sym_observe("same", t == s); try { s.substr(9); } catch (const out_of_range &e) { sym_observe("thrown", 1); } char buf[8] = {0}; s.copy(buf, 3); sym_observe("cp", buf[1] == s[1]); transform(s.begin(), s.end(), s.begin(), ::tolower); transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return toupper(c); }); obs(s); s.erase(remove(s.begin(), s.end(), 'A'), s.end()); sym_observe("sz", s.size()); s.replace(s.begin(), s.begin(), "pre"); s.insert(s.begin(), 'c'); s.erase(s.begin()); }
HARNESS(x_num) { sym_assert(true, "reached"); int k = sym_int("k", 0, 1200); obs(to_string(k)); obs(to_string((unsigned long)k)); string s = to_string(k); sym_observe("stoi", stoi(s)); sym_observe("stol", stol(s)); sym_observe("stoul", stoul(s)); sym_observe("atoi", atoi(s.c_str())); sym_observe("strtol", strtol(s.c_str(), nullptr, 10)); sym_observe("strtoul", strtoul(s.c_str(), nullptr, 10)); sym_observe("stod", (uint64_t)stod(s)); obs(to_string(-3)); try { stoi("x"); } catch (const invalid_argument &) { sym_observe("ia", 1); } try { stoi("99999999999"); } catch (const out_of_range &) { sym_observe("oor", 1); } sym_observe("abs", abs(k - 600)); sym_observe("hex", strtol("ff", nullptr, 16)); }
HARNESS(x_oss) { sym_assert(true, "reached"); ostringstream o; int k = sym_int("k", 0, 300); o << k << ' ' << "lit" << string("str") << 'c' << true << boolalpha << false << -5 << 7u << 9L << 10ul << endl << flush; o << setw(5) << setfill('0') << k << hex << 255 << dec << left << setw(4) << 'x' << right << setw(6) << "ab"; o << (void *)nullptr; obs(o.str()); o.str(""); o.clear(); o << "new"; obs(o.str()); o.put('x'); o.write("abc", 2); obs(o.str()); stringstream ss; ss << 12 << " " << st(); obs(ss.str()); ostream &r = ss; r << k; obs(ss.str()); sym_observe("good", (bool)r); }
HARNESS(x_iss) { sym_assert(true, "reached"); istringstream i("12 word 7\nline two\n\nlast"); int a; string w; i >> a >> w; sym_observe("a", a); obs(w); string l; getline(i, l); obs(l); int n = 0; while (getline(i, l)) { obs(l); n++; } sym_observe("n", n); stringstream ss(st()); string p; while (getline(ss, p, 'a')) obs(p); istringstream bad("x"); int z = 5; bad >> z; sym_observe("fail", bad.fail()); istringstream c("abc"); char ch; while (c.get(ch)) sym_observe("ch", ch); sym_observe("eof", c.eof()); }
HARNESS(x_sv) { sym_assert(true, "reached"); string s = st(); string_view v(s); sym_observe("f", v.find("ab")); obs(string(v.substr(1))); v.remove_prefix(1); v.remove_suffix(1); sym_observe("n", v.size()); sym_observe("c", v == "bc"); sym_observe("lt", v < "bc"); obs(string(v)); sym_observe("cmp", v.compare("bc") < 0); ostringstream o; o << v; obs(o.str()); }
HARNESS(x_util) { sym_assert(true, "reached"); optional<int> o; if (sym_bool("b")) o = 3; sym_observe("o", o.value_or(9)); sym_observe("h", o.has_value()); try { o.value(); } catch (const bad_optional_access &) { sym_observe("bad", 1); } variant<int, string> v = 3; v = st(); obs(get<string>(v)); visit([](auto &&) { sym_observe("visit", 1); }, v); sym_observe("hold", holds_alternative<int>(v)); function<int(int)> f = [&](int x) { return x + 1; }; sym_observe("f", f(sym_int("x", 0, 9))); function<void()> e; try { e(); } catch (const bad_function_call &) { sym_observe("bfc", 1); } auto p = make_pair(1, string("x")); auto t = make_tuple(1, 2.0, string("y")); obs(get<2>(t)); int a; tie(a, ignore) = make_pair(4, 5); sym_observe("tie", a + p.first); auto b = bind(plus<int>(), placeholders::_1, 3); sym_observe("bind", b(4)); hash<string> h; sym_observe("hs", h("a") == h("a")); }
HARNESS(x_ptr) { sym_assert(true, "reached"); struct A { virtual ~A() { sym_observe("dtor", 1); } int v = 3; }; struct B : A { ~B() override { sym_observe("dtorB", 1); } }; unique_ptr<A> u(new B); u = make_unique<A>(); auto s = make_shared<B>(); shared_ptr<A> s2 = s; weak_ptr<A> w = s2; sym_observe("uc", s2.use_count()); s.reset(); s2.reset(); sym_observe("ex", w.expired()); shared_ptr<A> raw(new A); A *r = u.release(); delete r; vector<unique_ptr<A>> vu; vu.push_back(make_unique<B>()); vu.emplace_back(new A); unique_ptr<int[]> arr(new int[4]); arr[2] = 5; sym_observe("arr", arr[2]); }
HARNESS(x_exc) { sym_assert(true, "reached"); int k = sym_choose("k", 0, 4); try { switch (k) { case 0: throw runtime_error("r"); case 1: throw logic_error("l"); case 2: throw 5; case 3: throw string("s"); default: break; } sym_observe("none", 1); } catch (const runtime_error &e) { obs(e.what()); } catch (const exception &e) { obs(e.what()); } catch (int i) { sym_observe("i", i); } catch (...) { sym_observe("all", 1); } try { try { throw domain_error("d"); } catch (...) { throw; } } catch (const logic_error &e) { obs(e.what()); } try { throw range_error("x"); } catch (const exception &e) { obs(e.what()); } try { throw length_error("x"); } catch (const exception &e) { obs(e.what()); } try { throw overflow_error("x"); } catch (const exception &e) { obs(e.what()); } }
HARNESS(x_c) { sym_assert(true, "reached"); char b[48]; int k = sym_int("k", 0, 99); snprintf(b, sizeof b, "%d-%s-%05d-%x-%c-%lu-%zu-%%-%3d|%-4d|", k, "ab", k, 255, 'c', 5ul, (size_t)6, k, k); obs(b); sym_observe("cmp", memcmp("ab", "ac", 2) < 0); memmove(b + 1, b, 4); obs(b); sym_observe("sp", strspn("aab", "a")); sym_observe("csp", strcspn("aab", "b")); char t[] = "a,b"; char *tok = strtok(t, ","); obs(tok); sym_observe("cc", strcasecmp("AB", "ab")); sym_observe("sqrt", (uint64_t)sqrt(16.0)); sym_observe("pow", (uint64_t)pow(2, 5)); sym_observe("floor", (uint64_t)floor(3.7)); sym_observe("ceil", (uint64_t)ceil(3.2)); sym_observe("round", (uint64_t)round(3.6)); strncat(b, "zz", 1); obs(b); sym_observe("lround", lround(2.6)); }
HARNESS(x_sref) { sym_assert(true, "reached"); string s = st(); llvm::StringRef r(s); sym_observe("sw", r.starts_with("ab")); sym_observe("ew", r.ends_with("cd")); sym_observe("eq", r == "abcd"); sym_observe("f", r.find('a')); sym_observe("f2", r.find("ab")); sym_observe("rf", r.rfind('b')); sym_observe("ffo", r.find_first_of("xy")); obs(r.substr(1, 2).str()); obs(r.drop_front(1).str()); obs(r.take_front(2).str()); obs(r.trim().str()); obs(r.upper()); obs(r.lower()); sym_observe("cont", r.contains("bc")); sym_observe("cmp", r.compare("bbbb") < 0); sym_observe("cnt", r.count('a')); auto [a, b] = r.split('b'); obs(a.str()); obs(b.str()); }
HARNESS(x_sref2) { sym_assert(true, "reached"); llvm::StringRef r("a,b,,c"); llvm::SmallVector<llvm::StringRef, 4> parts; r.split(parts, ","); for (auto p : parts) obs(p.str()); int n; sym_observe("gi", llvm::StringRef("12").getAsInteger(10, n)); sym_observe("n", n); sym_observe("eqi", llvm::StringRef("Ab").equals_insensitive("aB")); llvm::StringRef c("pre.x"); sym_observe("cf", c.consume_front("pre.")); obs(c.str()); int k = llvm::StringSwitch<int>(st()).Case("abcd", 1).StartsWith("z", 2).EndsWith("q", 3).Cases("aaaa", "bbbb", 4).Default(5); sym_observe("k", k); obs((llvm::Twine("a") + "b" + llvm::Twine(5) + llvm::StringRef("c")).str()); obs(llvm::join(parts, ";")); obs(llvm::utostr(12)); obs(llvm::itostr(-3)); llvm::SmallString<16> ss("abc"); ss += "def"; ss.append("x"); obs(ss.str().str()); obs(ss.c_str()); obs(llvm::utohexstr(255)); }
HARNESS(x_adt) { sym_assert(true, "reached"); llvm::SmallVector<int, 2> v{1, 2}; v.push_back(sym_int("v", 0, 5)); v.append({4, 5}); v.erase(v.begin()); v.insert(v.begin(), 9); for (int x : v) sym_observe("v", x); llvm::ArrayRef<int> a(v); sym_observe("as", a.slice(1).size()); llvm::DenseMap<int, int> m; m[3] = 4; m[5] = 6; sym_observe("m", m.lookup(3)); sym_observe("mc", m.count(7)); llvm::SmallPtrSet<int *, 2> ps; int q[4]; for (int i = 0; i < 4; i++) ps.insert(&q[i]); sym_observe("ps", ps.size() + ps.count(&q[1])); llvm::SmallSet<int, 2> ss; ss.insert(1); ss.insert(2); ss.insert(3); sym_observe("ss", ss.count(3)); llvm::DenseSet<int> ds; ds.insert(4); sym_observe("ds", ds.contains(4)); llvm::StringMap<int> sm; sm["x"] = 3; sym_observe("sm", sm.lookup("x")); llvm::StringSet<> st; st.insert("a"); sym_observe("sc", st.count("a")); sym_observe("any", llvm::any_of(v, [](int x) { return x == 9; })); sym_observe("isc", llvm::is_contained(v, 4)); llvm::sort(v); for (auto [i, x] : llvm::enumerate(v)) sym_observe("en", i + x); auto ff = llvm::find_if(v, [](int x) { return x == 5; }); sym_observe("ff", ff - v.begin()); llvm::erase_if(v, [](int x) { return x == 4; }); sym_observe("vs", v.size()); for (int x : llvm::reverse(v)) sym_observe("rv", x); sym_observe("cif", llvm::count_if(v, [](int x) { return x > 2; })); sym_observe("ao", llvm::all_of(v, [](int x) { return x > 2; })); sym_observe("no", llvm::none_of(v, [](int x) { return x > 2; })); for (int x : llvm::make_filter_range(v, [](int x) { return x > 2; })) sym_observe("fr", x); for (int x : llvm::map_range(v, [](int x) { return x * 2; })) sym_observe("mr", x); for (auto [x, y] : llvm::zip(v, v)) sym_observe("z", x + y); llvm::function_ref<int(int)> fr = [](int x) { return x; }; sym_observe("fref", fr(3)); }
HARNESS(x_raw) { sym_assert(true, "reached"); string s; llvm::raw_string_ostream o(s); int k = sym_int("k", 0, 300); o << k << " " << "lit" << string("str") << 'c' << llvm::StringRef("ref") << 7u << -3 << 10ul << llvm::Twine("t"); o.flush(); obs(s); obs(o.str()); llvm::SmallString<8> ss; llvm::raw_svector_ostream so(ss); so << "abc" << 12; obs(ss.str().str()); }
HARNESS(x_ap) { sym_assert(true, "reached"); llvm::APInt a(32, sym_int("a", 0, 100)); sym_observe("z", a.getZExtValue()); sym_observe("eq", a == 5); sym_observe("lt", a.ult(7)); llvm::APInt b = a + 1; sym_observe("b", b.getSExtValue()); llvm::APSInt s(b, false); sym_observe("neg", s.isNegative()); sym_observe("lim", a.getLimitedValue(50)); sym_observe("bool", a.isZero());  }
HARNESS(x_cout) { sym_assert(true, "reached"); cout << "a" << sym_int("k", 0, 20) << endl; cerr << "b" << 3 << "\n"; clog << "c" << endl; sym_observe("x", 1); }
#include <any>
#include <charconv>
#include <mutex>
#include <chrono>
#include <numeric>
#include <memory_resource>
#include <cassert>
#include <cinttypes>
HARNESS(x_algo2) { sym_assert(true, "reached"); vector<int> v{1, 4, 6, sym_int("v", 0, 10)}, w{4, 6, 7}; vector<int> o; sort(v.begin(), v.end()); set_difference(v.begin(), v.end(), w.begin(), w.end(), back_inserter(o)); for (int x : o) sym_observe("o", x); o.clear(); set_intersection(v.begin(), v.end(), w.begin(), w.end(), inserter(o, o.begin())); sym_observe("si", o.size()); o.clear(); merge(v.begin(), v.end(), w.begin(), w.end(), back_inserter(o)); sym_observe("mg", o.size()); sym_observe("adj", adjacent_find(o.begin(), o.end()) - o.begin()); sym_observe("srch", search(o.begin(), o.end(), w.begin(), w.begin() + 1) - o.begin()); replace(o.begin(), o.end(), 4, 5); replace_if(o.begin(), o.end(), [](int x) { return x == 6; }, 8); sym_observe("cnt", count(o.begin(), o.end(), 8)); int n = 0; generate(o.begin(), o.end(), [&] { return n++; }); sym_observe("g", o.back()); sym_observe("mis", mismatch(v.begin(), v.end(), o.begin()).first - v.begin()); sym_observe("inc", includes(v.begin(), v.end(), w.begin(), w.begin() + 1)); sym_observe("mx", max({1, 5, n})); sym_observe("ap", apply([](int a, int b) { return a + b; }, make_tuple(1, 2))); sym_observe("ub", upper_bound(v.begin(), v.end(), 4) - v.begin()); sym_observe("lb", lower_bound(v.begin(), v.end(), 4) - v.begin()); partial_sort(o.rbegin(), o.rbegin() + 2, o.rend()); sym_observe("is", is_sorted(v.begin(), v.end())); sym_observe("ip", inner_product(v.begin(), v.end(), v.begin(), 0)); copy(v.begin(), v.end(), o.begin()); copy_n(v.begin(), 2, o.begin()); fill_n(o.begin(), 1, 3); auto h = o; make_heap(h.begin(), h.end()); pop_heap(h.begin(), h.end()); sym_observe("eq", v == w); sym_observe("lt", v < w); reverse_copy(v.begin(), v.end(), o.begin()); sym_observe("fl", find_first_of(v.begin(), v.end(), w.begin(), w.end()) - v.begin()); sym_observe("fin", find_if_not(v.begin(), v.end(), [](int x) { return x < 3; }) - v.begin()); sym_observe("adv", *next(v.begin(), 2) + *prev(v.end())); sym_observe("red", accumulate(w.begin(), w.end(), string(), [](string a, int b) { return a + to_string(b); }).size()); }
HARNESS(x_it) { sym_assert(true, "reached"); ostringstream o; vector<int> v{1, 2, sym_int("k", 0, 12)}; copy(v.begin(), v.end(), ostream_iterator<int>(o, ",")); obs(o.str()); istringstream i("3 4 5"); vector<int> w((istream_iterator<int>(i)), istream_iterator<int>()); sym_observe("w", w.size()); istringstream j("abc"); string s((istreambuf_iterator<char>(j)), istreambuf_iterator<char>()); obs(s); o.str(""); o << quoted("a\"b"); obs(o.str()); o.str(""); o << left << setw(6) << setfill('.') << "ab" << internal << setw(4) << 7 << nouppercase << hex << uppercase << 171; obs(o.str()); o.str(""); o << setw(3) << 'c' << setw(8) << string("xyz"); obs(o.str()); sym_observe("tell", (uint64_t)o.tellp()); }
HARNESS(x_misc) { sym_assert(true, "reached"); any a = 3; sym_observe("any", a.has_value()); char b[16]; auto r = to_chars(b, b + 16, sym_int("k", 0, 200)); obs(string(b, r.ptr)); int v = 0; from_chars("42x", "42x" + 3, v); sym_observe("fc", v); mutex m; { lock_guard<mutex> g(m); } { unique_lock<mutex> g(m); } once_flag f; using namespace std::string_literals; obs("lit"s); u16string u(u"ab"); sym_observe("u", u.size()); auto d = chrono::seconds(5); sym_observe("d", chrono::duration_cast<chrono::milliseconds>(d).count()); sym_observe("ex", exchange(v, 3)); struct S { int a; bool operator==(const S &o) const { return a == o.a; } }; sym_observe("s", S{1} == S{1}); static int counter = 0; counter++; sym_observe("st", counter); thread_local int tl = 3; tl++; sym_observe("tl", tl); int arr[] = {1, 2, 3}; sym_observe("sz", size(arr)); for (auto &x : arr) x *= 2; sym_observe("ar", end(arr)[-1] == 6); enum class Co : uint8_t { A, B }; sym_observe("en", static_cast<int>(Co::B)); }
HARNESS(x_dbl) { sym_assert(true, "reached"); int k = sym_choose("k", 0, 30); double d = k * 1.5; sym_observe("i", (uint64_t)(int)d); ostringstream o; o << k / 2.0; if (k % 2 == 0) obs(o.str()); char b[32]; snprintf(b, sizeof b, "%.2f|%5.1f|%g", d, d, d); obs(b); obs(to_string(d)); sym_observe("cmp", d > 3.2); float f = (float)d; sym_observe("f", (uint64_t)(f * 2)); ostringstream q; q << fixed << setprecision(2) << d << ' ' << setprecision(1) << 2.25f; obs(q.str()); ostringstream e; e << 0.1 << ' ' << 1e10 << ' ' << 1.0 / 3 << ' ' << d; obs(e.str()); }
HARNESS(x_virt) { sym_assert(true, "reached"); struct V { virtual int f() { return 1; } virtual ~V() = default; }; struct A : virtual V { int f() override { return 2; } }; struct B : virtual V { }; struct C : A, B { }; C c; V *v = &c; sym_observe("f", v->f()); int (V::*pm)() = &V::f; sym_observe("pm", (v->*pm)()); int (*fp)(int) = [](int x) { return x + 1; }; sym_observe("fp", fp(sym_int("x", 0, 5))); struct M { M() = default; M(M &&) { } M &operator=(M &&) { return *this; } int q = 4; }; vector<M> ms(2); ms.emplace_back(); sym_observe("ms", ms.size()); auto gen = [n = 0]() mutable { return ++n; }; gen(); sym_observe("gen", gen()); goto out; out: switch (sym_int("y", 0, 3)) { case 0: sym_observe("sw", 0); [[fallthrough]]; case 1: sym_observe("sw", 1); break; default: sym_observe("sw", 2); } }
HARNESS(x_cstr) { sym_assert(true, "reached"); string s = st(); const char *c = s.c_str(); const char *p = strchr(c, 'a'); sym_observe("p", p ? p - c : 9); p = strstr(c, "ab"); sym_observe("p2", p ? p - c : 9); p = strrchr(c, 'b'); sym_observe("p3", p ? p - c : 9); sym_observe("cmp", strcmp(c, "abcd") == 0); sym_observe("len", strlen(c)); sym_observe("isa", isalpha((unsigned char)s[0]) != 0); sym_observe("up", toupper((unsigned char)s[1])); unsigned n = 0; for (char x : s) n += isupper((unsigned char)x) ? 1 : 0; sym_observe("n", n); sym_observe("cif", count_if(s.begin(), s.end(), [](unsigned char q) { return isdigit(q); })); sym_observe("cnt", count(s.begin(), s.end(), 'a')); sym_observe("fi", find(s.begin(), s.end(), 'z') - s.begin()); sym_observe("eq", equal(s.begin(), s.end(), "abcd")); }
HARNESS(x_fold) { sym_assert(true, "reached"); llvm::StringRef r("  some Text here "); auto p = r.trim().split(' '); obs(p.first.str()); auto q = r.rsplit('T'); obs(q.second.str()); obs(r.ltrim().str()); obs(r.rtrim().str()); sym_observe("ci", r.contains_insensitive("TEXT")); sym_observe("swi", r.ltrim().starts_with_insensitive("SOME")); sym_observe("w", r.drop_while([](char c) { return c == ' '; }).size()); sym_observe("ti", r.find_if([](char c) { return c == 'T'; })); obs(r.slice(2, 5).str()); sym_observe("e", r.empty()); sym_observe("fb", r.front() == ' ' && r.back() == ' '); std::string s = r.str() + "x"; obs(s); llvm::SmallVector<std::string, 2> v; v.push_back("aaaaaaaaaaaaaaaaaaaaaa"); v.emplace_back("b"); v.push_back("c"); auto w = v; obs(w[0]); llvm::SmallVector<std::unique_ptr<int>, 1> u; u.push_back(std::make_unique<int>(3)); u.push_back(std::make_unique<int>(4)); sym_observe("u", *u.back()); sym_observe("acc", std::accumulate(v.begin(), v.end(), 0, [](int a, const std::string &b) { return a + (int)b.size(); })); llvm::DenseMap<llvm::StringRef, int> dm; dm["a"] = 1; dm["b"] = 2; sym_observe("dm", dm["b"]); std::string out; llvm::raw_string_ostream o(out); o << llvm::format("%d-%s", 3, (const char *)"x") << llvm::StringRef("q").upper(); o.flush(); obs(out); }
