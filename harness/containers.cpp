// P07 (object trie) and P08 (dependency graph): random operation sequences against
// reference models, with every observer compared after every step.
#include <vf.hpp>
#include <algorithm>
#include <deque>
#include <list>
#include <sstream>
#include <queue>
#include <Balau/Container/ObjectTrie.hpp>
#include <Balau/Container/DependencyGraph.hpp>
#include <Balau/Type/ToString.hpp>

using namespace Balau::Container;
using std::string;
using std::to_string;

// ---------------------------------------------------------------- trie

struct V {
	int key = 0;
	string text;
	V() = default;
	V(int k, string t) : key(k), text(std::move(t)) {}
	bool operator == (const V & o) const { return key == o.key; }
};
static std::ostream & operator << (std::ostream & s, const V & v) { return s << v.key << ":" << v.text; }
using Trie = ObjectTrie<V>;
using Node = ObjectTrieNode<V>;

struct M {
	int key = 0;
	string text;
	std::vector<M> ch;
	M * find(int k) { for (auto & c : ch) if (c.key == k) return &c; return nullptr; }
};
static string showM(const M & m) {
	string s = to_string(m.key) + ":" + m.text;
	if (!m.ch.empty()) { s += "("; for (auto & c : m.ch) s += showM(c) + " "; s += ")"; }
	return s;
}
static string showN(const Node & n) {
	string s = to_string(n.value.key) + ":" + n.value.text;
	if (n.count()) { s += "("; for (size_t m = 0; m < n.count(); ++m) s += showN(n[m]) + " "; s += ")"; }
	return s;
}
static void depthOrder(const M & m, std::vector<const M *> path, std::vector<std::vector<const M *>> & out) {
	path.push_back(&m);
	out.push_back(path);
	for (auto & c : m.ch) depthOrder(c, path, out);
}

static int counter = 0;
static string freshText(vf::Rng & r) { return (r.chance(1, 2) ? "v" : "a value that does not fit in a small string ") + to_string(++counter); }
static M randomModel(vf::Rng & r, int depth, int keys) {
	M m;
	m.key = (int) r.below(keys);
	m.text = freshText(r);
	if (depth) for (uint64_t n = r.below(4); n; --n) m.ch.push_back(randomModel(r, depth - 1, keys));
	return m;
}
static void buildNode(Node & n, const M & m, vf::Rng & r) {
	for (auto & c : m.ch) {
		if (r.chance(1, 2)) buildNode(n.addAndReturnChild(V(c.key, c.text)), c, r);
		else { const V v(c.key, c.text); n.add(v); buildNode(n[n.count() - 1], c, r); }
	}
}
static Trie buildTrie(const M & m, vf::Rng & r) {
	Trie t = r.chance(1, 2) ? Trie(V(m.key, m.text)) : [&] { const V v(m.key, m.text); return Trie(v); }();
	buildNode(t.root(), m, r);
	return t;
}
static void cascadeModel(M & dst, const M & src, const string & mark, bool root = true) {
	if (root && dst.key != src.key) return;
	if (root) dst.text = mark + src.text;
	for (auto & c : src.ch) {
		M * d = dst.find(c.key);
		if (!d) { M n; n.key = c.key; dst.ch.push_back(n); d = &dst.ch.back(); }
		d->text = mark + c.text;
		cascadeModel(*d, c, mark, false);
	}
}

static bool keyEq(const V & a, const V & b) { return a.key == b.key; }
static bool keyEqI(const V & a, const int & b) { return a.key == b; }

static bool observe(Trie & t, M & m, const string & what, vf::Rng & r) {
	const string model = showM(m), real = showN(t.root());
	if (model != real) { vf::violation("trie-content:" + what, "expected " + model + " got " + real); return false; }
	std::vector<std::vector<const M *>> order;
	depthOrder(m, {}, order);
	const Trie & ct = t;
	// depth order, with ancestors
	size_t n = 0;
	bool bad = false;
	for (auto i = t.depthBegin(); i != t.depthEnd(); ++i, ++n) {
		if (n >= order.size()) { bad = true; break; }
		auto & path = order[n];
		bad |= (*i).value.key != path.back()->key || i->value.text != path.back()->text;
		std::vector<const Node *> anc;
		i.getAncestors(anc);
		bad |= anc.size() != path.size();
		for (size_t l = 0; l < path.size() + 2; ++l) {
			Node * a = i.getAncestor(l);
			if (l >= path.size()) bad |= a != nullptr;
			else bad |= !a || a->value.text != path[path.size() - 1 - l]->text || anc[path.size() - 1 - l] != a;
		}
		if (bad) break;
	}
	if (bad || n != order.size()) { vf::violation("trie-depth-order:" + what, "position " + to_string(n) + " of " + model); return false; }
	n = 0;
	for (auto i = ct.begin(); i != ct.end(); ++i, ++n) {
		if (n >= order.size() || i->value.text != order[n].back()->text || (n && i.getAncestor(1) && i.getAncestor(1)->value.text != order[n][order[n].size() - 2]->text)) { bad = true; break; }
	}
	if (bad || n != order.size()) { vf::violation("trie-const-depth-order:" + what, "position " + to_string(n) + " of " + model); return false; }
	// breadth order
	std::deque<const M *> q { &m };
	string bf;
	std::ostringstream wanted;
	std::vector<const M *> flat;
	while (!q.empty()) { const M * x = q.front(); q.pop_front(); flat.push_back(x); wanted << x->key << ":" << x->text << "\n"; for (auto & c : x->ch) q.push_back(&c); }
	n = 0;
	for (auto i = t.breadthBegin(); i != t.breadthEnd(); ++i, ++n) if (n >= flat.size() || i->value.text != flat[n]->text || (*i).value.key != flat[n]->key) { bad = true; break; }
	if (bad || n != flat.size()) { vf::violation("trie-breadth-order:" + what, "position " + to_string(n) + " of " + model); return false; }
	std::ostringstream got;
	got << ct;
	if (got.str() != wanted.str()) { vf::violation("trie-breadth-order:stream", got.str()); return false; }
	// children of a random node through begin() and end()
	{
		Node * node = &t.root();
		M * mn = &m;
		while (!mn->ch.empty() && r.chance(2, 3)) { size_t k = r.below(mn->ch.size()); node = &(*node)[k]; mn = &mn->ch[k]; }
		size_t k = 0;
		for (auto & c : *node) { if (k >= mn->ch.size() || c.value.text != mn->ch[k].text) { bad = true; break; } ++k; }
		if (bad || k != mn->ch.size() || node->empty() != mn->ch.empty() || node->count() != mn->ch.size()) { vf::violation("trie-children:" + what, to_string(k) + " of " + to_string(mn->ch.size())); return false; }
	}
	if (t.count() != m.ch.size() || t.empty() != m.ch.empty()) { vf::violation("trie-count:" + what, model); return false; }
	vf::count("trie nodes compared", order.size());
	return true;
}

static void searches(Trie & t, M & m, vf::Rng & r, int keys) {
	std::vector<int> path;
	const bool skip = r.chance(2, 3);
	M * w = &m;
	if (!skip) path.push_back(r.chance(4, 5) ? m.key : (int) r.below(keys));
	for (uint64_t n = r.below(6); n; --n) {
		int k = w && !w->ch.empty() && r.chance(4, 5) ? w->ch[r.below(w->ch.size())].key : (int) r.below(keys);
		path.push_back(k);
		w = w ? w->find(k) : nullptr;
	}
	// the model's answers
	M * exact = nullptr, * nearest = nullptr;
	if (!path.empty()) {
		M * at = &m;
		size_t i = 0;
		bool ok = true;
		if (!skip) { if (m.key != path[0]) ok = false; else { i = 1; nearest = &m; } }
		if (ok) {
			for (; i < path.size(); ++i) { M * next = at->find(path[i]); if (!next) { ok = false; break; } at = next; nearest = at; }
			if (ok) exact = at;
		}
	}
	M * leaf = nearest && nearest->ch.empty() ? nearest : nullptr;
	std::vector<V> vs;
	for (int k : path) vs.emplace_back(k, "?");
	std::list<int> ks(path.begin(), path.end());
	const Trie & ct = t;
	auto same = [&] (const Node * n, const M * x, const char * what) {
		if ((!n) != (!x) || (n && n->value.text != x->text)) {
			string p;
			for (int k : path) p += to_string(k) + " ";
			vf::violation(string("trie-search:") + what, "path " + p + (skip ? "below" : "from") + " the root of " + showM(m) + " expected " + (x ? x->text : "nothing") + " got " + (n ? n->value.text : "nothing"));
		}
		vf::count(x ? "trie searches that matched" : "trie searches without match");
	};
	same(t.find(vs, skip), exact, "find");
	same(ct.find(vs, skip), exact, "find-const");
	same(t.find(ks, keyEqI, skip), exact, "find-compare");
	same(ct.find(ks, keyEqI, skip), exact, "find-compare-const");
	same(t.findNearest(vs, skip), nearest, "nearest");
	same(ct.findNearest(vs, skip), nearest, "nearest-const");
	same(t.findNearest(ks, keyEqI, skip), nearest, "nearest-compare");
	same(ct.findNearest(ks, keyEqI, skip), nearest, "nearest-compare-const");
	same(t.findNearestLeaf(vs, skip), leaf, "leaf");
	same(ct.findNearestLeaf(vs, skip), leaf, "leaf-const");
	same(t.findNearestLeaf(ks, keyEqI, skip), leaf, "leaf-compare");
	same(ct.findNearestLeaf(ks, keyEqI, skip), leaf, "leaf-compare-const");
}

static void trie(int64_t, vf::Rng & r) {
	const int keys = (int) r.range(2, 8);
	M m = randomModel(r, (int) r.range(0, 3), keys);
	Trie t = buildTrie(m, r);
	if (!observe(t, m, "build", r)) return;
	uint64_t shape = 3;
	for (int step = 0, steps = (int) r.range(3, 25); step < steps; ++step) {
		Node * n = &t.root();
		M * x = &m;
		while (!x->ch.empty() && r.chance(2, 3)) { size_t k = r.below(x->ch.size()); n = &(*n)[k]; x = &x->ch[k]; }
		const int key = (int) r.below(keys);
		const string text = freshText(r);
		V v(key, text);
		const V cv(key, text);
		M nm;
		nm.key = key;
		nm.text = text;
		const int op = (int) r.below(16);
		shape = vf::mix(shape, (uint64_t) op * 100 + (uint64_t) key);
		string what;
		Node * returned = nullptr;
		M * expected = nullptr;
		const bool atRoot = x == &m;
		const bool rv = r.chance(1, 2), cmp = r.chance(1, 2);
		auto modelReplace = [&] (const string & prefix) -> M * {
			if (M * c = x->find(key)) { c->text = prefix.empty() ? text : prefix + c->text + text; return c; }
			x->ch.push_back(nm);
			return &x->ch.back();
		};
		switch (op) {
			case 0: what = "add"; x->ch.push_back(nm);
				if (atRoot && r.chance(1, 2)) { if (rv) t.add(std::move(v)); else t.add(cv); }
				else { if (rv) n->add(std::move(v)); else n->add(cv); }
				break;
			case 1: what = "addAndReturnChild"; x->ch.push_back(nm); expected = &x->ch.back();
				if (atRoot && r.chance(1, 2)) returned = rv ? &t.addAndReturnChild(std::move(v)) : &t.addAndReturnChild(cv);
				else returned = rv ? &n->addAndReturnChild(std::move(v)) : &n->addAndReturnChild(cv);
				break;
			case 2: case 3: what = "addOrReplace"; modelReplace("");
				if (atRoot && r.chance(1, 2)) {
					if (cmp) { if (rv) t.addOrReplace(std::move(v), keyEq); else t.addOrReplace(cv, keyEq); }
					else { if (rv) t.addOrReplace(std::move(v)); else t.addOrReplace(cv); }
				} else {
					if (cmp) { if (rv) n->addOrReplace(std::move(v), keyEq); else n->addOrReplace(cv, keyEq); }
					else { if (rv) n->addOrReplace(std::move(v)); else n->addOrReplace(cv); }
				}
				break;
			case 4: what = "addOrReplace-function"; modelReplace("+");
				n->addOrReplace(cv, keyEq, [] (V & old, const V & in) { old.text = "+" + old.text + in.text; });
				break;
			case 5: case 6: what = "addOrReplaceAndReturnChild"; expected = modelReplace("");
				if (atRoot && r.chance(1, 2)) {
					if (cmp) returned = rv ? &t.addOrReplaceAndReturnChild(std::move(v), keyEq) : &t.addOrReplaceAndReturnChild(cv, keyEq);
					else returned = rv ? &t.addOrReplaceAndReturnChild(std::move(v)) : &t.addOrReplaceAndReturnChild(cv);
				} else {
					if (cmp) returned = rv ? &n->addOrReplaceAndReturnChild(std::move(v), keyEq) : &n->addOrReplaceAndReturnChild(cv, keyEq);
					else returned = rv ? &n->addOrReplaceAndReturnChild(std::move(v)) : &n->addOrReplaceAndReturnChild(cv);
				}
				break;
			case 7: what = "addOrReplaceAndReturnChild-function"; expected = modelReplace("+");
				if (rv) returned = &n->addOrReplaceAndReturnChild(std::move(v), keyEq, [] (V & old, V && in) { old.text = "+" + old.text + in.text; });
				else returned = &n->addOrReplaceAndReturnChild(cv, keyEq, [] (V & old, const V & in) { old.text = "+" + old.text + in.text; });
				break;
			case 8: case 9: {
				what = "findOrAddChild";
				expected = x->find(key);
				const bool found = expected;
				if (!expected) { x->ch.push_back(nm); expected = &x->ch.back(); }
				if (cmp) returned = &n->findOrAddChild(key, keyEqI, [&] (int k) { if (found) vf::violation("trie-create-called", "create function called for an existing child"); return V(k, text); });
				else returned = rv ? &n->findOrAddChild(std::move(v)) : &n->findOrAddChild(cv);
				break;
			}
			case 10: case 11: {
				what = "findOrAdd";
				std::vector<int> path;
				for (uint64_t k = r.below(5); k; --k) path.push_back((int) r.below(keys));
				M * at = &m;
				for (int k : path) {
					M * c = at->find(k);
					if (!c) { M f; f.key = k; f.text = cmp ? "made" : "?" + to_string(k); at->ch.push_back(f); c = &at->ch.back(); }
					at = c;
				}
				expected = at;
				if (cmp) returned = &t.findOrAdd(path, keyEqI, [] (int k) { return V(k, "made"); });
				else { std::vector<V> vs; for (int k : path) vs.emplace_back(k, "?" + to_string(k)); returned = &t.findOrAdd(vs); }
				break;
			}
			case 12: case 13: {
				M o = randomModel(r, (int) r.range(0, 3), keys);
				if (r.chance(3, 4)) o.key = m.key;
				Trie other = buildTrie(o, r);
				const string before = showN(other.root());
				const int style = (int) r.below(4);
				what = style == 0 ? "cascade-copy" : style == 1 ? "cascade-move" : style == 2 ? "cascade-copy-function" : "cascade-move-function";
				cascadeModel(m, o, style < 2 ? "" : "*");
				if (style == 0) t.cascade(other);
				else if (style == 1) t.cascade(std::move(other));
				else if (style == 2) { const Trie & co = other; t.cascade(co, [] (const V & i) { return V(i.key, "*" + i.text); }); }
				else t.cascade(std::move(other), [] (V & i) { return V(i.key, "*" + std::move(i.text)); });
				if (style % 2 == 0 && showN(other.root()) != before) vf::violation("trie-cascade-source", "a copying cascade changed its source");
				vf::count("cascades");
				break;
			}
			case 14: {
				what = "copy";
				Trie copy(t);
				Trie assigned(V(99, "x"));
				assigned = Trie(copy);
				const string keep = showN(copy.root());
				t.root().value.text = m.text = "changed";
				if (!m.ch.empty()) { t[0].value.text = m.ch[0].text = "changed child"; t[0].add(V(5, "n")); M f; f.key = 5; f.text = "n"; m.ch[0].ch.push_back(f); }
				if (showN(copy.root()) != keep || showN(assigned.root()) != keep) vf::violation("trie-copy-shared", "changing a trie changed its copy");
				if (r.chance(1, 2)) {
					Trie moved(std::move(t));
					t = Trie(V(0, "gone"));
					t = std::move(moved);
				}
				break;
			}
			default: {
				what = "findChild";
				const Node * cn = n;
				const M * c = x->find(key);
				for (const Node * f : { (const Node *) n->find(cv), cn->find(cv), (const Node *) n->find(cv, keyEq), cn->find(cv, keyEq), (const Node *) n->find(key, keyEqI), cn->find(key, keyEqI) })
					if ((!f) != (!c) || (f && f->value.text != c->text)) vf::violation("trie-search:child", "key " + to_string(key));
			}
		}
		if (expected && (!returned || returned->value.text != expected->text || returned->value.key != expected->key))
			vf::violation("trie-returned-node:" + what, "expected " + expected->text + " got " + (returned ? returned->value.text : "nothing"));
		vf::count("trie operations");
		if (!observe(t, m, what, r)) return;
		searches(t, m, r, keys);
	}
	vf::distinct(vf::mix(shape, vf::hashStr(showM(m))));
	if (m.ch.size() > 1) vf::sample("trie after the sequence: " + showM(m));
}

// ---------------------------------------------------------------- dependency graph

struct EdgeData { int v = 0; EdgeData(int v_ = 0) : v(v_) {} };
using Graph = DependencyGraph<string, EdgeData>;
struct GM {
	std::set<string> v;
	std::map<std::pair<string, string>, int> e; // independent -> dependent
	bool cyclic(const std::set<std::pair<string, string>> & removed = {}) const {
		std::map<string, int> indeg;
		for (auto & x : v) indeg[x] = 0;
		for (auto & x : e) if (!removed.count(x.first)) ++indeg[x.first.second];
		std::vector<string> q;
		for (auto & x : indeg) if (!x.second) q.push_back(x.first);
		size_t n = 0;
		while (!q.empty()) {
			string s = q.back();
			q.pop_back();
			++n;
			for (auto & x : e) if (x.first.first == s && !removed.count(x.first)) if (!--indeg[x.first.second]) q.push_back(x.first.second);
		}
		return n != v.size();
	}
	std::map<string, size_t> levels() const { // longest chain of dependencies below
		std::map<string, size_t> l;
		for (size_t n = 0; n <= v.size(); ++n) for (auto & x : v) {
			size_t k = 0;
			for (auto & y : e) if (y.first.second == x) k = std::max(k, l[y.first.first] + 1);
			l[x] = k;
		}
		return l;
	}
	string show() const {
		string s;
		for (auto & x : v) s += x + " ";
		s += "|";
		for (auto & x : e) s += " " + x.first.first + ">" + x.first.second;
		return s;
	}
};

static bool observeGraph(const Graph & g, Graph & mg, const GM & m, const std::vector<string> & names) {
	const string M = m.show();
	auto bad = [&] (const string & key, const string & d) { vf::violation("graph-" + key, d + " in " + M); return false; };
	for (auto & n : names) {
		const bool in = m.v.count(n);
		if (g.hasDependency(n) != in) return bad("has", n);
		const string * l = g.lookupDependency(n);
		if ((l != nullptr) != in || (l && *l != n)) return bad("lookup", n);
		if (in) {
			auto d = g.directDependenciesOf(n);
			std::multiset<string> got(d.begin(), d.end()), want;
			for (auto & x : m.e) if (x.first.second == n) want.insert(x.first.first);
			if (got != want) return bad("direct", n);
		}
		for (auto & o : names) {
			int got = -1;
			bool threw = false;
			try { got = g.getRelation(n, o).v; } catch (const Balau::Exception::BalauException &) { threw = true; }
			auto f = m.e.find({ n, o });
			if (threw != (f == m.e.end())) return bad("relation", n + ">" + o + (threw ? " missing" : " present"));
			if (!threw && got != f->second) return bad("relation-data", n + ">" + o + " " + to_string(got));
		}
	}
	const bool cyc = m.cyclic();
	if (g.hasCycles() != cyc) return bad("cycles", cyc ? "a cycle was not found" : "a cycle was found");
	std::vector<std::pair<string, string>> ce;
	if (g.hasCycles(ce) != cyc || ce.empty() == cyc) return bad("cycles", "edge list");
	std::set<std::pair<string, string>> removed;
	for (auto & x : ce) { if (!m.e.count(x)) return bad("cycle-edge", x.first + ">" + x.second + " is no edge"); removed.insert(x); }
	if (cyc && m.cyclic(removed)) return bad("cycle-edges", "the graph without the reported edges is still cyclic");
	if (!cyc) {
		auto order = g.dependencyOrder();
		if (order.size() != m.v.size() || std::set<string>(order.begin(), order.end()) != m.v) return bad("order", "not a permutation");
		std::map<string, size_t> pos;
		for (size_t n = 0; n < order.size(); ++n) pos[order[n]] = n;
		for (auto & x : m.e) if (pos[x.first.first] >= pos[x.first.second]) return bad("order", x.first.first + " not before " + x.first.second);
		auto par = g.parallelDependencyOrder();
		auto lev = m.levels();
		size_t total = 0;
		for (size_t n = 0; n < par.size(); ++n) for (auto & x : par[n]) {
			++total;
			if (!m.v.count(x)) return bad("parallel-order", "unknown " + x);
			if (lev[x] != n) return bad("parallel-order", x + " in step " + to_string(n) + " instead of " + to_string(lev[x]));
		}
		if (total != m.v.size()) return bad("parallel-order", "not a permutation");
		for (size_t n = 0; !m.v.empty() && n < par.size(); ++n) if (par[n].empty()) return bad("parallel-order", "empty step");
		vf::count("acyclic graphs ordered");
	} else {
		bool threw = false;
		try { (void) g.dependencyOrder(); } catch (const std::exception &) { threw = true; }
		if (!threw) return bad("order-of-cyclic", "an order was given for a cyclic graph");
		threw = false;
		try { (void) g.parallelDependencyOrder(); } catch (const std::exception &) { threw = true; }
		if (!threw) return bad("order-of-cyclic", "a parallel order was given for a cyclic graph");
		vf::count("cyclic graphs recognised");
	}
	const string log = mg.logGraph("T");
	for (auto & x : m.v) if (log.find(x) == string::npos) return bad("log", x);
	return true;
}

static void graph(int64_t, vf::Rng & r) {
	Graph g;
	DependencyGraph<string> plain; // without edge data, for iteration
	GM m;
	std::vector<string> names;
	for (int64_t n = r.range(1, 9); n; --n) names.push_back((r.chance(1, 2) ? "dep" : "a dependency with a long name ") + to_string(n));
	uint64_t shape = 5;
	const bool dag = r.chance(1, 2);
	for (int64_t step = 0, steps = r.range(5, 50); step < steps; ++step) {
		const string a = r.pick(names), b = r.pick(names);
		const int op = (int) r.below(12);
		bool threw = false, expectThrow = false;
		string what;
		try {
			if (op < 4) {
				what = "add";
				const bool strict = r.chance(1, 2);
				expectThrow = strict && m.v.count(a);
				if (!m.v.count(a)) plain.addDependency(a);
				g.addDependency(a, strict);
				m.v.insert(a);
			} else if (op < 5) {
				what = "remove";
				const bool strict = r.chance(1, 2);
				expectThrow = strict && !m.v.count(a);
				if (m.v.count(a)) plain.removeDependency(a);
				g.removeDependency(a, strict);
				m.v.erase(a);
				for (auto i = m.e.begin(); i != m.e.end();) if (i->first.first == a || i->first.second == a) i = m.e.erase(i); else ++i;
			} else if (op < 11) {
				what = "relate";
				string x = a, y = b;
				if (dag) { size_t i = std::find(names.begin(), names.end(), a) - names.begin(), j = std::find(names.begin(), names.end(), b) - names.begin(); if (i == j) continue; if (i > j) std::swap(x, y); }
				if (m.e.count({ x, y })) continue; // re-adding: data unspecified
				expectThrow = !m.v.count(x) || !m.v.count(y);
				const int data = (int) r.below(1000);
				if (r.chance(3, 4)) { g.addRelationship(x, y, EdgeData(data)); m.e[{ x, y }] = data; }
				else { g.addRelationship(x, y); m.e[{ x, y }] = 0; }
			} else {
				what = "unrelate";
				expectThrow = !m.v.count(a) || !m.v.count(b);
				g.removeRelationship(a, b);
				m.e.erase({ a, b });
			}
		} catch (const Balau::Exception::BalauException & e) {
			threw = true;
			if (expectThrow && what == "relate") { for (auto i = m.e.begin(); i != m.e.end();) if (!m.v.count(i->first.first) || !m.v.count(i->first.second)) i = m.e.erase(i); else ++i; }
		}
		vf::count("graph operations");
		if (threw) vf::count("graph operations refused");
		shape = vf::mix(shape, vf::hashStr(what + a + b));
		if (threw != expectThrow) { vf::violation("graph-refusal:" + what, a + " " + b + (threw ? " was refused" : " was accepted") + " in " + m.show()); return; }
		if (!observeGraph(g, g, m, names)) return;
		std::multiset<string> seen;
		for (auto & x : plain) seen.insert(x);
		const DependencyGraph<string> & cp = plain;
		std::multiset<string> seen2;
		for (auto & x : cp) seen2.insert(x);
		if (seen != std::multiset<string>(m.v.begin(), m.v.end()) || seen2 != seen) { vf::violation("graph-iteration", m.show()); return; }
	}
	vf::distinct(vf::mix(shape, vf::hashStr(m.show())));
	if (m.e.size() > 3) vf::sample(m.show());
}

static vf::Mode m1("trie", trie), m2("graph", graph);
