// P11: random binding configurations, built by the injector and judged by a reference resolver that
// knows the bindings of each level and the promotions, with a life-cycle record of every object.
#include "inject.hpp"
#include <array>
#include <atomic>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>
#include <Balau/Type/ToString.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/Injectable.hpp>

using namespace Balau;
using std::string;
using std::to_string;

// ---------------------------------------------------------------- object family

struct Obj;
struct Rec { // life record of one object
	std::atomic<int> alive { 0 };
	std::atomic<int> died { 0 };
	std::atomic<int> cls { -1 };
	std::atomic<int> thread { 0 };
	std::atomic<int> deleter { 0 };
	std::atomic<int> external { 0 };
};
constexpr uint32_t MAXREC = 1u << 17;
static Rec * const recs = new Rec[MAXREC];
static std::atomic<uint32_t> nextSerial { 1 };
static std::atomic<int> doubleDeath { 0 };
static thread_local int tlThread = 0;
static thread_local bool tlExternal = false; // the object is made by the harness (provided instance, provider function), not by the injector
static uint32_t newSerial(int cls) {
	uint32_t s = nextSerial.fetch_add(1, std::memory_order_relaxed);
	if (s >= MAXREC) vf::fatalViolation("harness/serials", "too many objects in one case");
	Rec & x = recs[s];
	x.alive.store(1, std::memory_order_relaxed); x.died.store(0, std::memory_order_relaxed); x.cls.store(cls, std::memory_order_relaxed);
	x.thread.store(tlThread, std::memory_order_relaxed); x.deleter.store(0, std::memory_order_relaxed); x.external.store(tlExternal, std::memory_order_relaxed);
	return s;
}

// Forms in which a dependency or an instance may be requested.
enum DT { VI, CVI, VS, V0, UA, UCA, UD, UB, RA, RCA, SA, SCA, SB, SX, WA, WCA, WI, SI, NDT };
static const char * const dtName[] = { "int", "const int", "string", "C0", "unique<A>", "unique<const A>", "unique<A,D>", "unique<B>", "A&", "const A&",
	"shared<A>", "shared<const A>", "shared<B>", "shared<C0>", "weak<A>", "weak<const A>", "weak<Injector>", "shared<Injector>" };
// Kinds of binding keys.
enum Fam { FI, FS, F0, FUA, FUD, FUB, FRA, FRC, FSA, FSC, FSB, FSX, NFAM };
static const char * const famName[] = { "int", "string", "C0", "unique A", "unique A D", "unique B", "ref A", "ref const A", "shared A", "shared const A", "shared B", "shared C0" };

struct A { long padA = 1; virtual ~A() = default; virtual const Obj & self() const = 0; };
struct B { long padB[3] = { 2, 3, 4 }; virtual ~B() = default; virtual const Obj & selfB() const = 0; };
struct Kid { // what an object holds as one of its dependencies
	DT dt; const A * a = nullptr; const B * b = nullptr; const Obj * o = nullptr; long i = 0; string s; const Injector * inj = nullptr; bool expired = false;
};
struct Obj : A, B {
	static constexpr uint64_t MAGIC = 0xfeedbeefcafe1234ull;
	uint64_t magic = MAGIC;
	uint32_t serial;
	int cls;
	long mark = 0;
	explicit Obj(int c) : serial(newSerial(c)), cls(c) {}
	Obj(const Obj & o) : serial(newSerial(o.cls)), cls(o.cls), mark(o.mark) { recs[serial].external = 2; if (o.magic != MAGIC || !o.serial) doubleDeath = 2; }
	Obj(Obj && o) noexcept : serial(o.serial), cls(o.cls), mark(o.mark) { if (o.magic != MAGIC) doubleDeath = 2; o.serial = 0; }
	Obj & operator = (const Obj &) = delete;
	~Obj() override {
		if (magic != MAGIC) doubleDeath = 1;
		magic = 0xdead;
		if (serial) { Rec & x = recs[serial]; if (x.alive.exchange(0, std::memory_order_relaxed) != 1) doubleDeath = 1; x.died.fetch_add(1, std::memory_order_relaxed); }
	}
	const Obj & self() const override { return *this; }
	const Obj & selfB() const override { return *this; }
	virtual void kids(std::vector<Kid> &) const {}
};
struct DelA { void operator () (A * p) const { if (p) { uint32_t s = p->self().serial; delete p; recs[s].deleter.fetch_add(1, std::memory_order_relaxed); } } };
struct DelO { template <typename T> void operator () (T * p) const { if (p) { uint32_t s = static_cast<const Obj *>(p)->serial; delete p; recs[s].deleter.fetch_add(1, std::memory_order_relaxed); } } };
struct DelBase { // deletes through an interface
	void operator () (const A * p) const { if (p) { uint32_t s = p->self().serial; delete p; recs[s].deleter.fetch_add(1, std::memory_order_relaxed); } }
	void operator () (const B * p) const { if (p) { uint32_t s = p->selfB().serial; delete p; recs[s].deleter.fetch_add(1, std::memory_order_relaxed); } }
};

struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
static std::atomic<int> boomIn { 0 }; // > 0: that many constructions of C5 or C1 until one of them throws
static void mayThrow() { int b = boomIn.load(); if (b > 0 && boomIn.fetch_sub(1) == 1) throw Boom("constructor fails"); }

constexpr int NC = 15;
static string g_names[NC][16]; // names of the dependencies of each class, chosen per case
static const string & dep(int k, int i) { return g_names[k][i]; }

template <typename T> static Kid kidOf(const T & f);
template <> Kid kidOf(const int & f) { return { VI, 0, 0, 0, f }; }
template <> Kid kidOf(const string & f) { Kid k { VS }; k.s = f; return k; }
template <typename T, typename D> static Kid kidU(DT dt, const std::unique_ptr<T, D> & f) { Kid k { dt }; if constexpr (std::is_same_v<std::remove_const_t<T>, A>) k.a = f.get(); else k.b = f.get(); return k; }
template <> Kid kidOf(const std::unique_ptr<A> & f) { return kidU(UA, f); }
template <> Kid kidOf(const std::unique_ptr<const A> & f) { return kidU(UCA, f); }
template <> Kid kidOf(const std::unique_ptr<A, DelA> & f) { return kidU(UD, f); }
template <> Kid kidOf(const std::unique_ptr<B> & f) { return kidU(UB, f); }
template <> Kid kidOf(const std::shared_ptr<A> & f) { return { SA, f.get() }; }
template <> Kid kidOf(const std::shared_ptr<const A> & f) { return { SCA, f.get() }; }
template <> Kid kidOf(const std::shared_ptr<B> & f) { return { SB, 0, f.get() }; }
template <> Kid kidOf(const std::weak_ptr<A> & f) { auto l = f.lock(); return { WA, l.get(), 0, 0, 0, "", 0, !l }; }
template <> Kid kidOf(const std::weak_ptr<const A> & f) { auto l = f.lock(); return { WCA, l.get(), 0, 0, 0, "", 0, !l }; }
template <> Kid kidOf(const std::weak_ptr<Injector> & f) { auto l = f.lock(); return { WI, 0, 0, 0, 0, "", l.get(), !l }; }
template <> Kid kidOf(const std::shared_ptr<Injector> & f) { return { SI, 0, 0, 0, 0, "", f.get() }; }

struct C0 : Obj {
	C0() : Obj(0) {}
	BalauInject(C0)
};
template <> Kid kidOf(const C0 & f) { Kid k { V0 }; k.o = &f; return k; }
template <> Kid kidOf(const std::shared_ptr<C0> & f) { Kid k { SX }; k.o = f.get(); return k; }
static Kid kidRef(A & r) { return { RA, &r }; }
static Kid kidRef(const A & r) { return { RCA, &r }; }

struct C1 : Obj {
	std::shared_ptr<A> a;
	explicit C1(std::shared_ptr<A> a_) : Obj(1), a(std::move(a_)) { mayThrow(); }
	BalauInjectNamed(C1, a, dep(1, 0))
	void kids(std::vector<Kid> & k) const override { k = { kidOf(a) }; }
};
struct C2 : Obj {
	std::unique_ptr<A> u; int n;
	C2(std::unique_ptr<A> u_, int n_) : Obj(2), u(std::move(u_)), n(n_) { mayThrow(); }
	BalauInjectNamedTypes(C2, std::unique_ptr<A>, dep(2, 0), int, dep(2, 1))
	void kids(std::vector<Kid> & k) const override { k = { kidOf(u), kidOf(n) }; }
};
struct C3 : Obj {
	std::shared_ptr<const A> c; const A & r;
	C3(std::shared_ptr<const A> c_, const A & r_) : Obj(3), c(std::move(c_)), r(r_) { mayThrow(); }
	BalauInjectNamed(C3, c, dep(3, 0), r, dep(3, 1))
	void kids(std::vector<Kid> & k) const override { k = { kidOf(c), kidRef(r) }; }
};
struct C4 : Obj {
	std::weak_ptr<A> w; std::shared_ptr<B> b; C0 v;
	C4(std::weak_ptr<A> w_, std::shared_ptr<B> b_, C0 v_) : Obj(4), w(std::move(w_)), b(std::move(b_)), v(std::move(v_)) { mayThrow(); }
	BalauInjectNamedTypes(C4, std::weak_ptr<A>, dep(4, 0), std::shared_ptr<B>, dep(4, 1), C0, dep(4, 2))
	void kids(std::vector<Kid> & k) const override { k = { kidOf(w), kidOf(b), kidOf(v) }; }
};
struct C5 : Obj {
	std::unique_ptr<A, DelA> d; std::unique_ptr<const A> u; const int n;
	C5(std::unique_ptr<A, DelA> d_, std::unique_ptr<const A> u_, int n_) : Obj(5), d(std::move(d_)), u(std::move(u_)), n(n_) { mayThrow(); }
	using U = std::unique_ptr<A, DelA>;
	BalauInjectNamed(C5, d, dep(5, 0), u, dep(5, 1), n, dep(5, 2))
	void kids(std::vector<Kid> & k) const override { k = { kidOf(d), kidOf(u), kidOf<int>(n) }; k[2].dt = CVI; }
};
struct C6 : Obj {
	A & r; std::weak_ptr<const A> w; string s;
	C6(A & r_, std::weak_ptr<const A> w_, string s_) : Obj(6), r(r_), w(std::move(w_)), s(std::move(s_)) { mayThrow(); }
	BalauInjectNamed(C6, r, dep(6, 0), w, dep(6, 1), s, dep(6, 2))
	void kids(std::vector<Kid> & k) const override { k = { kidRef(r), kidOf(w), kidOf(s) }; }
};
static std::atomic<int> injectorCallbacks { 0 }, expectedInjectorCallbacks { 0 }; // pre-destruction callbacks registered through an injected weak pointer
struct C7 : Obj {
	std::weak_ptr<Injector> i; std::shared_ptr<A> a;
	C7(std::weak_ptr<Injector> i_, std::shared_ptr<A> a_) : Obj(7), i(std::move(i_)), a(std::move(a_)) {
		mayThrow();
		auto l = i.lock();
		if (l) { expectedInjectorCallbacks.fetch_add(1, std::memory_order_relaxed); l->registerPreDestructionCall([] { injectorCallbacks.fetch_add(1, std::memory_order_relaxed); }); }
	}
	BalauInjectNamed(C7, i, "", a, dep(7, 1))
	void kids(std::vector<Kid> & k) const override { k = { kidOf(i), kidOf(a) }; }
};
struct C8 : Obj {
	std::shared_ptr<Injector> i; std::shared_ptr<B> b;
	C8(std::shared_ptr<Injector> i_, std::shared_ptr<B> b_) : Obj(8), i(std::move(i_)), b(std::move(b_)) {}
	BalauInjectNamed(C8, i, "", b, dep(8, 1))
	void kids(std::vector<Kid> & k) const override { k = { kidOf(i), kidOf(b) }; }
};
struct C9 : Obj {
	std::shared_ptr<A> a0, a1, a2; std::shared_ptr<B> b0, b1; std::shared_ptr<const A> c0, c1; std::unique_ptr<A> u0; std::unique_ptr<B> u1;
	int i0, i1; string s0; A & r0; std::shared_ptr<C0> x0; C0 v0; std::weak_ptr<A> w0;
	C9(std::shared_ptr<A> a0_, std::shared_ptr<A> a1_, std::shared_ptr<A> a2_, std::shared_ptr<B> b0_, std::shared_ptr<B> b1_, std::shared_ptr<const A> c0_, std::shared_ptr<const A> c1_,
	   std::unique_ptr<A> u0_, std::unique_ptr<B> u1_, int i0_, int i1_, string s0_, A & r0_, std::shared_ptr<C0> x0_, C0 v0_, std::weak_ptr<A> w0_)
		: Obj(9), a0(a0_), a1(a1_), a2(a2_), b0(b0_), b1(b1_), c0(c0_), c1(c1_), u0(std::move(u0_)), u1(std::move(u1_)), i0(i0_), i1(i1_), s0(s0_), r0(r0_), x0(x0_), v0(std::move(v0_)), w0(w0_) { mayThrow(); }
	BalauInjectNamed(C9, a0, dep(9, 0), a1, dep(9, 1), a2, dep(9, 2), b0, dep(9, 3), b1, dep(9, 4), c0, dep(9, 5), c1, dep(9, 6), u0, dep(9, 7), u1, dep(9, 8),
		i0, dep(9, 9), i1, dep(9, 10), s0, dep(9, 11), r0, dep(9, 12), x0, dep(9, 13), v0, dep(9, 14), w0, dep(9, 15))
	void kids(std::vector<Kid> & k) const override {
		k = { kidOf(a0), kidOf(a1), kidOf(a2), kidOf(b0), kidOf(b1), kidOf(c0), kidOf(c1), kidOf(u0), kidOf(u1), kidOf(i0), kidOf(i1), kidOf(s0), kidRef(r0), kidOf(x0), kidOf(v0), kidOf(w0) };
	}
};
struct C10 : Obj {
	std::shared_ptr<A> a; int n;
	C10(std::shared_ptr<A> a_, int n_) : Obj(10), a(std::move(a_)), n(n_) { mayThrow(); }
	BalauInject(C10, a, n)
	void kids(std::vector<Kid> & k) const override { k = { kidOf(a), kidOf(n) }; }
};
struct Obj11 : Obj { Obj11() : Obj(11) {} };
struct C11 : Obj11 {
	std::shared_ptr<B> b; std::unique_ptr<B> u; string s;
	BalauInjectConstructNamed(C11, b, dep(11, 0), u, dep(11, 1), s, dep(11, 2))
	void kids(std::vector<Kid> & k) const override { k = { kidOf(b), kidOf(u), kidOf(s) }; }
};
// Provider classes: the products hold the dependencies of the provider.
struct Product : Obj {
	uint32_t provider; std::shared_ptr<A> a; std::shared_ptr<const A> c;
	Product(int cls_, uint32_t p, std::shared_ptr<A> a_, std::shared_ptr<const A> c_) : Obj(cls_), provider(p), a(std::move(a_)), c(std::move(c_)) {}
	void kids(std::vector<Kid> & k) const override { k = { kidOf(a), kidOf(c) }; }
};
struct External { bool old = tlExternal; External() { tlExternal = true; } ~External() { tlExternal = old; } };
struct PU : Obj { // provider of unique A instances
	std::shared_ptr<A> a; std::shared_ptr<const A> c;
	PU(std::shared_ptr<A> a_, std::shared_ptr<const A> c_) : Obj(12), a(std::move(a_)), c(std::move(c_)) { mayThrow(); }
	BalauInjectNamed(PU, a, dep(12, 0), c, dep(12, 1))
	std::unique_ptr<A> operator () () { External x; return std::unique_ptr<A>(new Product(12, serial, a, c)); }
	void kids(std::vector<Kid> & k) const override { k = { kidOf(a), kidOf(c) }; }
};
struct PS : Obj { // provider of shared A singletons
	std::shared_ptr<A> a; std::shared_ptr<const A> c;
	PS(std::shared_ptr<A> a_, std::shared_ptr<const A> c_) : Obj(13), a(std::move(a_)), c(std::move(c_)) { mayThrow(); }
	BalauInjectNamed(PS, a, dep(13, 0), c, dep(13, 1))
	std::shared_ptr<A> operator () () { External x; return std::shared_ptr<A>(new Product(13, serial, a, c)); }
	void kids(std::vector<Kid> & k) const override { k = { kidOf(a), kidOf(c) }; }
};
struct PI : Obj { // provider of int values: the serial of the provider
	std::shared_ptr<B> b; string s;
	PI(std::shared_ptr<B> b_, string s_) : Obj(14), b(std::move(b_)), s(std::move(s_)) { mayThrow(); }
	BalauInjectNamed(PI, b, dep(14, 0), s, dep(14, 1))
	int operator () () { return 1000000 + (int) serial; }
	void kids(std::vector<Kid> & k) const override { k = { kidOf(b), kidOf(s) }; }
};
static const std::vector<DT> classDeps[NC] = {
	{}, { SA }, { UA, VI }, { SCA, RCA }, { WA, SB, V0 }, { UD, UCA, CVI }, { RA, WCA, VS }, { WI, SA }, { SI, SB },
	{ SA, SA, SA, SB, SB, SCA, SCA, UA, UB, VI, VI, VS, RA, SX, V0, WA }, { SA, VI }, { SB, UB, VS }, { SA, SCA }, { SA, SCA }, { SB, VS } };

// ---------------------------------------------------------------- bindings

enum How { Inst, Proto, Fn, ClsProv, InstProv, Lazy, LazyDel, Local, LocalDel, Eager, EagerDel, Given, GivenRaw, GivenRawDel, Ref };
static const char * const howName[] = { "instantiated", "prototype", "function", "provider class", "provider", "lazy", "lazy deleter", "thread local", "thread local deleter", "eager", "eager deleter", "given", "given pointer", "given pointer deleter", "reference" };
struct Spec { // one binding
	Fam fam; string name; How how; int cls = 0; // cls: injected class, -1 when there is none
	bool constBase = false; // value and unique bindings: specified with a const base type
	long num = 0;           // int prototype, base of function providers
	string text;            // string prototype
	std::shared_ptr<Obj> given;
	std::shared_ptr<std::atomic<int>> calls = std::make_shared<std::atomic<int>>(0);
	bool injected() const { return how == Inst || how == ClsProv || (how >= Lazy && how <= EagerDel); }
	bool shared() const { return fam >= FSA; }
	bool local() const { return how == Local || how == LocalDel; }
	int deleter() const { return how == LazyDel || how == LocalDel || how == EagerDel || how == GivenRawDel || fam == FUD; }
	string text_() const { return string(famName[fam]) + " '" + name + "' " + howName[how] + (cls >= 0 ? " C" + to_string(cls) : "") + (constBase ? " const" : ""); }
};
using SpecP = std::shared_ptr<Spec>;

// Provider instances and functions made by the harness.
struct IntProvider { std::shared_ptr<std::atomic<int>> n; long base; int operator () () const { return (int) (base + n->fetch_add(1)); } };
struct StrProvider { std::shared_ptr<std::atomic<int>> n; string base; string operator () () const { return base + "#" + to_string(n->fetch_add(1)); } };
struct UAProvider { std::shared_ptr<std::atomic<int>> n; std::unique_ptr<A> operator () () const { External x; n->fetch_add(1); return std::unique_ptr<A>(new C0); } };
struct UBProvider { std::shared_ptr<std::atomic<int>> n; std::unique_ptr<B> operator () () const { External x; n->fetch_add(1); return std::unique_ptr<B>(new C0); } };
struct C0Provider { std::shared_ptr<std::atomic<int>> n; C0 operator () () const { External x; n->fetch_add(1); return C0(); } };
template <typename T> struct SProvider { std::shared_ptr<std::atomic<int>> n; std::shared_ptr<T> operator () () const { External x; n->fetch_add(1); return std::shared_ptr<T>(new C0); } };

struct Conf : ApplicationConfiguration {
	std::vector<SpecP> specs;
	std::vector<std::shared_ptr<Conf>> extra;
	std::vector<std::function<void (const Injector &)>> post;
	std::vector<std::function<void ()>> pre;
	std::vector<std::pair<std::shared_ptr<A> *, string>> statics;
	mutable std::vector<Obj *> raws; // raw pointers given to injectors, owned by them

	template <typename Base, int K, typename C, typename Bind> void cls_(Bind & b, const Spec & s) const {
		switch (s.how) {
			case Lazy: b.template toSingleton<C>(); break;
			case Local: b.template toThreadLocal<C>(); break;
			case Eager: b.template toEagerSingleton<C>(); break;
			default: break;
		}
		if constexpr (K == 0 || K == 1 || K == 4 || K == 7) switch (s.how) {
			case LazyDel: b.template toSingleton<C, DelO>(); break;
			case LocalDel: b.template toThreadLocal<C, DelO>(); break;
			case EagerDel: b.template toEagerSingleton<C, DelO>(); break;
			default: break;
		}
	}
	template <typename Base, typename Bind> void sharedCls(Bind & b, const Spec & s) const {
		switch (s.cls) {
			case 0: cls_<Base, 0, C0>(b, s); break;
			case 1: cls_<Base, 1, C1>(b, s); break;
			case 4: cls_<Base, 4, C4>(b, s); break;
			case 7: cls_<Base, 7, C7>(b, s); break;
			case 8: cls_<Base, 8, C8>(b, s); break;
			case 9: cls_<Base, 9, C9>(b, s); break;
			default:
				if constexpr (std::is_same_v<Base, A> || std::is_same_v<Base, const A>) switch (s.cls) {
					case 2: cls_<Base, 2, C2>(b, s); break;
					case 3: cls_<Base, 3, C3>(b, s); break;
					case 6: cls_<Base, 6, C6>(b, s); break;
					case 10: cls_<Base, 10, C10>(b, s); break;
				}
				if constexpr (std::is_same_v<Base, B> || std::is_same_v<Base, A>) switch (s.cls) {
					case 5: cls_<Base, 5, C5>(b, s); break;
					case 11: cls_<Base, 11, C11>(b, s); break;
				}
		}
	}
	template <typename Bind> void uniqueCls(Bind & b, const Spec & s) const {
		switch (s.cls) {
			case 0: b.template toUnique<C0>(); break;
			case 1: b.template toUnique<C1>(); break;
			case 2: b.template toUnique<C2>(); break;
			case 5: b.template toUnique<C5>(); break;
			case 6: b.template toUnique<C6>(); break;
			case 8: b.template toUnique<C8>(); break;
			case 9: b.template toUnique<C9>(); break;
			case 11: b.template toUnique<C11>(); break;
		}
	}
	template <typename Base, typename Bind> void given(Bind & b, const Spec & s) const {
		if (s.how == Given) b.toSingleton(std::shared_ptr<Base>(s.given));
		else if (s.how == Fn) b.toSingletonProvider(std::function<std::shared_ptr<Base> ()>(SProvider<Base> { s.calls }));
		else if (s.how == InstProv) b.toSingletonProvider(std::make_shared<SProvider<Base>>(SProvider<Base> { s.calls }));
		else if (s.how == GivenRaw || s.how == GivenRawDel) {
			External x; auto * o = new C0; raws.push_back(o);
			if (s.how == GivenRaw) b.toSingleton(static_cast<Base *>(o)); else b.template toSingleton<DelBase>(static_cast<Base *>(o));
		}
	}
	void configure() const override {
		for (auto & sp : specs) {
			const Spec & s = *sp;
			switch (s.fam) {
				case FI:
					if (s.constBase) {
						if (s.how == Proto) bind<const int>(s.name).toValue((int) s.num); else bind<const int>(s.name).toValueProvider(IntProvider { s.calls, s.num });
					} else if (s.how == Proto) bind<int>(s.name).toValue((int) s.num);
					else if (s.how == Fn) bind<int>(s.name).toValueProvider(IntProvider { s.calls, s.num });
					else if (s.how == InstProv) bind<int>(s.name).toValueProvider(std::make_shared<IntProvider>(IntProvider { s.calls, s.num }));
					else bind<int>(s.name).toValueProvider<PI>();
					break;
				case FS:
					if (s.how == Proto) bind<string>(s.name).toValue(s.text);
					else if (s.how == Fn) bind<string>(s.name).toValueProvider(StrProvider { s.calls, s.text });
					else bind<string>(s.name).toValueProvider(std::make_shared<StrProvider>(StrProvider { s.calls, s.text }));
					break;
				case F0:
					if (s.how == Inst) { if (s.constBase) bind<const C0>(s.name).toValue(); else bind<C0>(s.name).toValue(); }
					else if (s.how == Proto) bind<C0>(s.name).toValue(static_cast<const C0 &>(*s.given));
					else bind<C0>(s.name).toValueProvider(C0Provider { s.calls });
					break;
				case FUA:
					if (s.constBase) { auto & b = bind<const A>(s.name); uniqueCls(b, s); }
					else if (s.how == Inst) { auto & b = bind<A>(s.name); uniqueCls(b, s); }
					else if (s.how == Fn) bind<A>(s.name).toUniqueProvider(UAProvider { s.calls });
					else if (s.how == InstProv) bind<A>(s.name).toUniqueProvider(std::make_shared<UAProvider>(UAProvider { s.calls }));
					else bind<A>(s.name).toUniqueProvider<PU>();
					break;
				case FUD: { auto & b = bind<A, DelA>(s.name); uniqueCls(b, s); break; }
				case FUB:
					if (s.how == Inst) { auto & b = bind<B>(s.name); uniqueCls(b, s); }
					else bind<B>(s.name).toUniqueProvider(UBProvider { s.calls });
					break;
				case FRA: bind<A>(s.name).toReference(*s.given); break;
				case FRC: bind<const A>(s.name).toReference(*s.given); break;
				case FSA: {
					auto & b = bind<A>(s.name);
					if (s.how == ClsProv) b.toSingletonProvider<PS>(); else if (s.injected()) sharedCls<A>(b, s); else given<A>(b, s);
					break;
				}
				case FSC: { auto & b = bind<const A>(s.name); if (s.injected()) sharedCls<const A>(b, s); else given<const A>(b, s); break; }
				case FSB: { auto & b = bind<B>(s.name); if (s.injected()) sharedCls<B>(b, s); else given<B>(b, s); break; }
				case FSX:
					if (s.how == Lazy) bind<C0>(s.name).toSingleton(); else if (s.how == Local) bind<C0>(s.name).toThreadLocal(); else if (s.how == Eager) bind<C0>(s.name).toEagerSingleton();
					else bind<C0>(s.name).toSingleton(std::static_pointer_cast<C0>(s.given));
					break;
				default: break;
			}
		}
		for (auto & e : extra) addConfiguration(*e);
		for (auto & f : post) registerPostConstructionCall(f);
		for (auto & f : pre) registerPreDestructionCall(f);
		for (auto & s : statics) registerStaticSingleton<A>(s.first, s.second);
	}
};

// ---------------------------------------------------------------- reference model

struct Level { // one injector
	int id = 0;
	Level * parent = nullptr;
	std::shared_ptr<std::vector<SpecP>> specs = std::make_shared<std::vector<SpecP>>(); // shared by the children made from a prototype
	int bindingSet = 0;
	std::shared_ptr<Injector> inj;
	const Injector * raw = nullptr;
};
static std::vector<Fam> candidates(DT d) {
	switch (d) {
		case VI: case CVI: return { FI };
		case VS: return { FS };
		case V0: return { F0 };
		case UA: case UCA: return { FUA };
		case UD: return { FUD };
		case UB: return { FUB };
		case RA: return { FRA };
		case RCA: return { FRC, FRA };
		case SA: case WA: return { FSA };
		case SCA: case WCA: return { FSC, FSA };
		case SB: return { FSB };
		case SX: return { FSX };
		default: return {};
	}
}
struct Found { Level * level = nullptr; int index = -1; const Spec * spec() const { return (*level->specs)[(size_t) index].get(); } explicit operator bool () const { return level; } };
static Found findKey(Level * l, Fam f, const string & name) {
	for (; l; l = l->parent) for (size_t m = 0; m < l->specs->size(); ++m) if ((*l->specs)[m]->fam == f && (*l->specs)[m]->name == name) return { l, (int) m };
	return {};
}
static Found resolve(Level * l, DT d, const string & name) {
	for (Fam f : candidates(d)) if (Found x = findKey(l, f, name)) return x;
	return {};
}
enum Refusal { Duplicate = 1, Missing = 2, Cycle = 4, SharedInj = 8 };
static int predict(Level * l) {
	int r = 0;
	const auto & S = *l->specs;
	std::set<std::pair<int, string>> keys;
	for (auto & s : S) if (!keys.insert({ s->fam, s->name }).second) r |= Duplicate;
	std::vector<std::set<int>> edges(S.size());
	for (size_t m = 0; m < S.size(); ++m) {
		if (!S[m]->injected()) continue;
		const auto & deps = classDeps[S[m]->cls];
		for (size_t k = 0; k < deps.size(); ++k) {
			if (deps[k] == WI) continue;
			if (deps[k] == SI) { if (S[m]->shared()) r |= SharedInj; continue; }
			Found f = resolve(l, deps[k], g_names[S[m]->cls][k]);
			if (!f) r |= Missing;
			else if (f.level == l) edges[m].insert(f.index);
		}
	}
	std::vector<int> state(S.size(), 0);
	std::function<bool (int)> cyc = [&] (int v) {
		state[(size_t) v] = 1;
		for (int w : edges[(size_t) v]) if (state[(size_t) w] == 1 || (state[(size_t) w] == 0 && cyc(w))) return true;
		state[(size_t) v] = 2;
		return false;
	};
	for (size_t m = 0; m < S.size(); ++m) if (!state[m] && cyc((int) m)) { r |= Cycle; break; }
	return r;
}
static string describe(Level * l) {
	string t = "level " + to_string(l->id) + (l->parent ? " child of " + to_string(l->parent->id) : "") + ":";
	for (auto & s : *l->specs) t += " [" + s->text_() + "]";
	return t;
}
static string describeNames() {
	string t; std::set<int> used;
	for (int k = 0; k < NC; ++k) { t += " C" + to_string(k) + "("; for (size_t m = 0; m < classDeps[k].size(); ++m) t += string(m ? ", " : "") + dtName[classDeps[k][m]] + " '" + g_names[k][m] + "'"; t += ")"; }
	return t;
}

// Judges the objects that came out of injectors.
struct Judge {
	std::map<std::tuple<int, int, int>, uint32_t> singletons;      // (binding set, binding, thread) -> serial
	std::map<std::pair<int, int>, uint32_t> providers;             // provider objects
	std::map<uint32_t, string> owner;                              // who has an object exclusively
	std::map<uint32_t, int> deleters;                              // expected number of deleter calls
	std::set<uint32_t> judged;
	std::map<const Spec *, std::set<long>> numbers;
	std::map<const Spec *, std::set<string>> texts;
	std::map<const Spec *, std::set<uint32_t>> fresh;
	std::set<const Spec *> givenJudged;
	string where;
	bool ok = true;
	uint64_t n = 0;
	void bad(const char * key, const string & t) { ok = false; vf::violation(key, t + " | " + where); }
	string at(Level * l, DT d, const string & name) { return string(dtName[d]) + " '" + name + "' at level " + to_string(l->id); }

	// The kid is what was obtained for the request; thread is the one that made the request.
	void judge(const Kid & kid, Level * from, DT d, const string & name, int thread, const string & who) {
		++n;
		if (d == WI || d == SI) {
			if (!isInjectorOf(kid.inj, from)) bad(kid.inj ? "P11/injector" : "P11/injector-missing", who + " was given another injector than that of level " + to_string(from->id));
			return;
		}
		Found f = resolve(from, d, name);
		if (!f) { bad("P11/unbound", at(from, d, name) + " returned, but has no binding"); return; }
		const Spec & s = *f.spec();
		const string what = at(from, d, name) + " for " + who + " -> " + s.text_() + " of level " + to_string(f.level->id);
		if (s.fam == FI) {
			if (s.how == Proto) { if (kid.i != s.num) bad("P11/value", what + " gave " + to_string(kid.i)); }
			else if (s.how == ClsProv) {
				uint32_t p = (uint32_t) (kid.i - 1000000);
				if (kid.i <= 1000000 || p >= nextSerial || recs[p].cls != 14) { bad("P11/provider", what + " gave " + to_string(kid.i)); return; }
				provider(f, p, what);
			} else {
				if (kid.i < s.num || kid.i >= s.num + s.calls->load()) bad("P11/value", what + " gave " + to_string(kid.i));
				else if (!numbers[&s].insert(kid.i).second) bad("P11/value-reused", what + " gave " + to_string(kid.i) + " again");
			}
			return;
		}
		if (s.fam == FS) {
			if (s.how == Proto) { if (kid.s != s.text) bad("P11/value", what + " gave " + vf::show(kid.s)); return; }
			auto p = kid.s.find('#');
			if (p == string::npos || kid.s.substr(0, p) != s.text) bad("P11/value", what + " gave " + vf::show(kid.s));
			else if (!texts[&s].insert(kid.s).second) bad("P11/value-reused", what + " gave " + kid.s + " again");
			return;
		}
		if (kid.expired) { bad("P11/expired", what + " has expired"); return; }
		if (!kid.a && !kid.b && !kid.o) { bad("P11/null", what + " gave a null pointer"); return; }
		const Obj & o = kid.a ? kid.a->self() : kid.b ? kid.b->selfB() : *kid.o;
		if (o.magic != Obj::MAGIC || !o.serial || recs[o.serial].alive != 1) { bad("P11/dead", what + " gave an object that was destroyed"); return; }
		if (s.fam == FRA || s.fam == FRC || s.how == Given) {
			if (&o != s.given.get()) bad("P11/instance", what + " gave another object than the one bound");
			return;
		}
		object(o, f, s, thread, what);
	}
	// The bindings, and so the singletons, of a prototype belong to several injectors.
	std::map<int, std::set<const Injector *>> injectors;
	bool isInjectorOf(const Injector * i, Level * l) const {
		if (i == l->raw) return true;
		auto it = injectors.find(l->bindingSet);
		return i && it != injectors.end() && it->second.count(i);
	}
	void provider(const Found & f, uint32_t p, const string & what) {
		auto it = providers.emplace(std::make_pair(f.level->bindingSet, f.index), p).first;
		if (it->second != p) bad("P11/provider", what + " came from a second provider object");
		own(p, "provider of set " + to_string(f.level->bindingSet) + " binding " + to_string(f.index), what);
	}
	void own(uint32_t serial, const string & o, const string & what) {
		auto it = owner.emplace(serial, o).first;
		if (it->second != o) bad("P11/shared-instance", what + " gave object " + to_string(serial) + " that also belongs to " + it->second);
	}
	void object(const Obj & o, const Found & f, const Spec & s, int thread, const string & what) {
		const int cls = s.injected() ? s.cls : 0;
		if (o.cls != cls) { bad("P11/class", what + " gave an object of class " + to_string(o.cls)); return; }
		deleters[o.serial] = s.deleter();
		if (s.shared()) {
			auto key = std::make_tuple(f.level->bindingSet, f.index, s.local() ? thread : 0);
			auto it = singletons.emplace(key, o.serial).first;
			if (it->second != o.serial) { bad(s.local() ? "P11/thread-local" : "P11/singleton", what + " gave object " + to_string(o.serial) + " instead of " + to_string(it->second)); return; }
			own(o.serial, "singleton of set " + to_string(f.level->bindingSet) + " binding " + to_string(f.index) + (s.local() ? " thread " + to_string(thread) : ""), what);
			if (s.local() && recs[o.serial].thread != thread) { bad("P11/thread-local", what + " gave an object made by another thread"); return; }
		} else {
			own(o.serial, "request " + to_string(n), what);
			if (s.how == Proto && o.mark != s.given->mark) bad("P11/value", what + " is not a copy of the prototype");
		}
		if (!judged.insert(o.serial).second) return;
		std::vector<Kid> ks; o.kids(ks);
		const auto & deps = classDeps[cls];
		if (s.how == ClsProv) provider(f, static_cast<const Product &>(o).provider, what);
		if (ks.size() != deps.size()) { bad("P11/class", what + " has another number of dependencies"); return; }
		// The dependencies come from the injector that has the binding, in the thread that made the object.
		Level * maker = f.level;
		const int by = recs[s.how == ClsProv ? static_cast<const Product &>(o).provider : o.serial].thread.load();
		for (size_t k = 0; k < deps.size(); ++k) {
			if (ks[k].dt != deps[k]) { bad("P11/class", what + " has another kind of dependency"); return; }
			judge(ks[k], maker, deps[k], g_names[cls][k], by, "C" + to_string(cls) + " #" + to_string(o.serial) + " dependency " + to_string(k));
		}
	}
};

// An instance that a caller holds.
struct Handle {
	DT dt; string name; Level * from; int thread; Kid kid;
	std::shared_ptr<const void> keep; // owner
};
static bool obtain(Injector & i, DT d, const string & name, int form, Handle & h) {
	h.dt = d; h.name = name;
	auto box = [&] (auto && p) { auto q = std::make_shared<std::decay_t<decltype(p)>>(std::move(p)); h.kid = kidOf(*q); h.keep = q; };
	if (form >= 100) { // a default that is not needed, because there is a binding
		const bool function = form % 2;
		bool used = false;
		auto other = [&] { External x; return std::shared_ptr<C0>(new C0); };
		auto shared = [&] (auto * base) {
			using T = std::decay_t<decltype(*base)>;
			std::shared_ptr<T> p = other();
			std::shared_ptr<T> q = function ? i.getShared<T>(name, std::function<std::shared_ptr<T> ()>([&] { used = true; return p; })) : i.getShared<T>(name, p);
			used |= q == p;
			box(std::move(q));
		};
		auto constShared = [&] {
			std::shared_ptr<const A> p = other();
			auto q = function ? i.getShared<const A>(name, std::function<std::shared_ptr<const A> ()>([&] { used = true; return p; })) : i.getShared<const A>(name, p);
			used |= q == p;
			box(std::move(q));
		};
		bool handled = true;
		switch (d) {
			case VI: { int v = function ? i.getValue<int>(name, std::function<int ()>([&] { used = true; return -78; })) : i.getValue<int>(name, -78); used |= v == -78; h.kid = kidOf(v); break; }
			case VS: { string v = function ? i.getValue<string>(std::string_view(name), std::function<string ()>([&] { used = true; return string("dflt"); })) : i.getValue<string>(std::string_view(name), string("dflt")); used |= v == "dflt"; h.kid = kidOf(v); break; }
			case UA: { External x; std::unique_ptr<A> p(new C0); auto * raw = p.get(); std::function<std::unique_ptr<A> ()> f = [&] { used = true; return std::move(p); }; std::unique_ptr<A> q;
				tlExternal = x.old;
				q = function ? i.getUnique<A>(name, f) : i.getUnique<A>(name, std::move(p)); used |= q.get() == raw; tlExternal = true; p.reset(); tlExternal = x.old; box(std::move(q)); break; }
			case UB: { std::function<std::unique_ptr<B> ()> f = [&] { External x; used = true; return std::unique_ptr<B>(new C0); }; box(i.getUnique<B>(name, f)); break; }
			case RA: { std::shared_ptr<C0> o = other(); A & a = i.getReference<A>(name, static_cast<A &>(*o)); used |= &a == static_cast<A *>(o.get()); if (!used) h.kid = kidRef(a); break; }
			case RCA: { std::shared_ptr<C0> o = other(); const A & c = *o; const A & a = i.getReference<const A>(name, c); used |= &a == &c; if (!used) h.kid = kidRef(a); break; }
			case SA: shared((A *) nullptr); break;
			case SB: shared((B *) nullptr); break;
			case SX: shared((C0 *) nullptr); break;
			case SCA: constShared(); break;
			default: handled = false; break;
		}
		if (used) vf::violation("P11/default", string("the default is used although there is a binding for ") + dtName[d] + " '" + name + "'");
		if (handled) { vf::count("requests with a default that is not needed"); return true; }
	}
	switch (d) {
		case VI: case CVI: { int v = d == CVI ? i.getInstance<const int>(name) : form % 2 ? i.getValue<int>(name) : i.getInstance<int>(name); h.kid = kidOf(v); break; }
		case VS: { string v = form % 2 ? i.getValue<string>(std::string_view(name)) : i.getInstance<string>(name); h.kid = kidOf(v); break; }
		case V0: { auto q = std::make_shared<C0>(form % 2 ? i.getValue<C0>(name) : i.getInstance<C0>(name)); h.kid = kidOf(*q); h.keep = q; break; }
		case UA: box(form % 2 ? i.getUnique<A>(name) : i.getInstance<std::unique_ptr<A>>(name)); break;
		case UCA: box(form % 2 ? i.getUnique<const A>(name) : i.getInstance<std::unique_ptr<const A>>(name)); break;
		case UD: box(form % 2 ? i.getUnique<A, DelA>(name) : i.getInstance<std::unique_ptr<A, DelA>>(name)); break;
		case UB: box(form % 2 ? i.getUnique<B>(name) : i.getInstance<std::unique_ptr<B>>(name)); break;
		case RA: h.kid = kidRef(form % 2 ? i.getReference<A>(name) : i.getInstance<A &>(name)); break;
		case RCA: h.kid = kidRef(form % 2 ? i.getReference<const A>(name) : i.getInstance<const A &>(name)); break;
		case SA: box(form % 3 == 0 ? i.getShared<A>(name) : form % 3 == 1 ? i.getInstance<std::shared_ptr<A>>(name) : i.getSharedOrNull<A>(name)); break;
		case SCA: box(form % 3 == 0 ? i.getShared<const A>(name) : form % 3 == 1 ? i.getInstance<std::shared_ptr<const A>>(name) : i.getSharedOrNull<const A>(name)); break;
		case SB: box(form % 2 ? i.getShared<B>(name) : i.getInstance<std::shared_ptr<B>>(name)); break;
		case SX: box(form % 2 ? i.getShared<C0>(name) : i.getInstance<std::shared_ptr<C0>>(name)); break;
		case WA: { std::weak_ptr<A> w = i.getInstance<std::weak_ptr<A>>(name); box(std::move(w)); break; }
		case WCA: { std::weak_ptr<const A> w = i.getInstance<std::weak_ptr<const A>>(name); box(std::move(w)); break; }
		case WI: { std::weak_ptr<Injector> w = i.getInstance<std::weak_ptr<Injector>>(); box(std::move(w)); break; }
		default: box(i.getShared<Injector>()); break;
	}
	return true;
}
// A request for a key that has no binding: refused, or the given default.
static void unbound(Injector & i, DT d, const string & name, int form, Judge & j, const string & what) {
	bool refused = false, defaulted = false;
	try {
		Handle h;
		if (form % 3 == 0) switch (d) {
			case VI: defaulted = i.getValue<int>(name, -77) == -77; break;
			case VS: defaulted = i.getValue<string>(std::string_view(name), string("dflt")) == "dflt"; break;
			case SA: { auto p = std::shared_ptr<A>(); { External x; p.reset(new C0); } defaulted = i.getShared<A>(name, p) == p && !i.getSharedOrNull<A>(name); break; }
			case SCA: { std::shared_ptr<const A> p; { External x; p.reset(new C0); } defaulted = i.getShared<const A>(name, p) == p && !i.getSharedOrNull<const A>(name); break; }
			case SB: { std::shared_ptr<B> p; { External x; p.reset(new C0); } defaulted = i.getShared<B>(name, std::function<std::shared_ptr<B> ()>([&] { return p; })) == p; break; }
			case UA: { External x; std::unique_ptr<A> p(new C0); auto * q = p.get(); defaulted = i.getUnique<A>(name, std::move(p)).get() == q && !i.getUniqueOrNull<A>(name); break; }
			case UD: { External x; std::unique_ptr<A, DelA> p(new C0); auto * q = p.get(); defaulted = i.getUnique<A, DelA>(name, std::move(p)).get() == q && !(i.getUniqueOrNull<A, DelA>(name)); break; }
			case UB: { External x; std::function<std::unique_ptr<B> ()> f = [] { return std::unique_ptr<B>(new C0); }; defaulted = i.getUnique<B>(name, f) != nullptr; break; }
			case RA: { External x; C0 o; defaulted = &i.getReference<A>(name, o) == static_cast<A *>(&o); break; }
			case RCA: { External x; C0 o; const A & c = o; defaulted = &i.getReference<const A>(name, c) == &c; break; }
			default: obtain(i, d, name, form, h); break;
		} else if (d == SA || d == SCA) obtain(i, d, name, form % 2, h);
		else obtain(i, d, name, form, h);
	} catch (const Exception::NoBindingException &) { refused = true; }
	vf::count("requests without a binding");
	if (!refused && !defaulted) j.bad("P11/unbound", what + " is not refused although there is no binding");
}

// ---------------------------------------------------------------- generation

struct World {
	vf::Rng & r;
	std::deque<std::unique_ptr<Level>> levels;
	std::set<int> named; // classes whose dependency names are chosen
	int sets = 0;
	bool concurrent = false;
	explicit World(vf::Rng & r_) : r(r_) { for (auto & k : g_names) for (auto & n : k) n = ""; }
	string randName() { return r.of({ "", "a", "b", "c", "name with space", "a" }); }
	std::vector<std::shared_ptr<Obj>> givens;
	std::shared_ptr<Obj> give(long mark) { External x; auto o = std::make_shared<C0>(); o->mark = mark; return o; }

	SpecP leaf(Fam f, const string & name) {
		auto s = std::make_shared<Spec>(); s->fam = f; s->name = name; s->cls = -1;
		switch (f) {
			case FI: s->how = r.of({ Proto, Proto, Fn, InstProv }); s->num = (long) r.below(900) * 1000; s->constBase = s->how != InstProv && r.chance(1, 4); break;
			case FS: s->how = r.of({ Proto, Proto, Fn, InstProv }); s->text = "t" + to_string(r.below(100)) + (r.chance(1, 3) ? string(40, 'x') : ""); break;
			case F0: s->how = r.of({ Inst, Proto, Fn }); if (s->how == Inst) { s->cls = 0; s->constBase = r.chance(1, 4); } if (s->how == Proto) s->given = give((long) r.below(1000)); break;
			case FUA: s->how = r.of({ Inst, Fn, InstProv }); if (s->how == Inst) { s->cls = 0; s->constBase = r.chance(1, 4); } break;
			case FUD: s->how = Inst; s->cls = 0; break;
			case FUB: s->how = r.of({ Inst, Fn }); if (s->how == Inst) s->cls = 0; break;
			case FRA: case FRC: s->how = Ref; s->given = give(0); break;
			case FSX: s->how = r.of({ Lazy, Local, Eager, Given }); if (s->how == Given) s->given = give(0); else s->cls = 0; break;
			default:
				s->how = r.of({ Lazy, LazyDel, Local, LocalDel, Eager, EagerDel, Given, GivenRaw, GivenRawDel, Fn, InstProv, Lazy, Eager });
				if (s->how == Given) s->given = give(0);
				if (s->injected()) s->cls = 0;
		}
		return s;
	}
	SpecP complex(const string & name) {
		auto s = std::make_shared<Spec>(); s->name = name;
		s->fam = r.of({ FI, FUA, FUA, FUD, FUB, FSA, FSA, FSA, FSA, FSC, FSB, FSB });
		switch (s->fam) {
			case FI: s->how = ClsProv; s->cls = 14; break;
			case FUA: if (r.chance(1, 4)) { s->how = ClsProv; s->cls = 12; break; } [[fallthrough]];
			case FUD: case FUB: s->how = Inst; s->cls = r.of({ 1, 2, 5, 6, 8, 9, 11 }); s->constBase = s->fam == FUA && r.chance(1, 6); break;
			default:
				if (s->fam == FSA && r.chance(1, 7)) { s->how = ClsProv; s->cls = 13; break; }
				s->how = r.of({ Lazy, Local, Eager, LazyDel, LocalDel, EagerDel });
				if (s->how == LazyDel || s->how == LocalDel || s->how == EagerDel) s->cls = r.of({ 1, 4, 7 });
				else if (s->fam == FSA) s->cls = r.of({ 1, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11 });
				else if (s->fam == FSC) s->cls = r.of({ 1, 2, 3, 4, 6, 7, 9, 10 });
				else s->cls = r.of({ 1, 4, 5, 7, 9, 11 });
		}
		if (s->cls == 8) s->name = "si"; // holds its injector: never a dependency, as that would be a cycle of shared pointers
		return s;
	}
	// Make the dependencies of a class available at a level: existing bindings or new leaves.
	void provideDeps(Level & l, int cls) {
		const auto & deps = classDeps[cls];
		const bool choose = named.insert(cls).second;
		for (size_t k = 0; k < deps.size(); ++k) {
			if (deps[k] == WI || deps[k] == SI) continue;
			if (choose && cls != 10) {
				g_names[cls][k] = randName();
				if (r.chance(2, 3)) { // the name of a binding that exists
					std::vector<string> have;
					auto cs = candidates(deps[k]);
					for (Level * x = &l; x; x = x->parent) for (auto & s : *x->specs) if (s->name != "si" && std::find(cs.begin(), cs.end(), s->fam) != cs.end()) have.push_back(s->name);
					if (!have.empty()) g_names[cls][k] = r.pick(have);
				}
			}
			if (!resolve(&l, deps[k], g_names[cls][k])) {
				auto cs = candidates(deps[k]);
				l.specs->push_back(leaf(r.pick(cs), g_names[cls][k]));
			}
		}
	}
	void settleNames(int cls) {
		if (named.insert(cls).second && cls != 10) for (size_t k = 0; k < classDeps[cls].size(); ++k) if (classDeps[cls][k] != WI && classDeps[cls][k] != SI) g_names[cls][k] = randName();
	}
	void fill(Level & l, int target) {
		for (int m = 0; m < target; ++m) {
			auto before = *l.specs; auto namedBefore = named; 
			SpecP s = r.chance(1, 3) ? leaf((Fam) r.below(NFAM), randName()) : complex(randName());
			l.specs->push_back(s);
			if (s->injected()) provideDeps(l, s->cls);
			if (predict(&l)) { *l.specs = before; for (int k : std::set<int>(named)) if (!namedBefore.count(k)) named.erase(k); }
		}
		for (size_t m = l.specs->size(); m > 1; --m) std::swap((*l.specs)[m - 1], (*l.specs)[r.below(m)]);
	}
	void breakIt(Level & l) {
		auto & S = *l.specs;
		switch (r.below(7)) {
			case 5: case 6: // another class for a singleton, which may close a cycle
				for (int t = 0; t < 20 && !S.empty(); ++t) {
					auto & s = r.pick(S);
					if (s->fam != FSA && s->fam != FSB) continue;
					auto x = std::make_shared<Spec>(); x->fam = s->fam; x->name = s->name; x->how = r.of({ Lazy, Eager, Local }); x->cls = s->fam == FSA ? r.of({ 1, 4, 7, 9, 10, 3, 2 }) : r.of({ 4, 9, 11, 1 });
					s = x; settleNames(x->cls); if (r.chance(3, 4)) provideDeps(l, x->cls);
					break;
				}
				break;
			case 0: if (!S.empty()) S.erase(S.begin() + (long) r.below(S.size())); break;
			case 1: if (!S.empty()) { auto c = std::make_shared<Spec>(*S[r.below(S.size())]); S.insert(S.begin() + (long) r.below(S.size() + 1), c); } break;
			case 2: if (!S.empty()) { auto & s = r.pick(S); auto x = leaf(s->fam, s->name); S.push_back(x); } break;
			case 3: { auto s = complex(randName()); s->fam = r.of({ FSA, FSB }); s->how = r.of({ Lazy, Eager, Local }); s->cls = r.of({ 1, 8, 8, 4, 9 }); for (size_t m = 0; m < S.size(); ++m) if (S[m]->fam == s->fam && S[m]->name == s->name) { S.erase(S.begin() + (long) m); break; } S.push_back(s); settleNames(s->cls); if (r.chance(1, 2)) provideDeps(l, s->cls); break; }
			default: { auto s = complex(randName()); S.push_back(s); if (s->injected()) settleNames(s->cls); break; }
		}
	}
	Level & add(Level * parent) {
		levels.push_back(std::make_unique<Level>());
		Level & l = *levels.back();
		l.id = (int) levels.size(); l.parent = parent; l.bindingSet = ++sets;
		return l;
	}
};

// The configuration objects of a level.
struct Built {
	std::vector<std::shared_ptr<Conf>> all, top;
	bool variadic = false;
};
static Built split(Level & l, vf::Rng & r) {
	Built b;
	int n = (int) r.range(1, 4);
	for (int m = 0; m < n; ++m) b.all.push_back(std::make_shared<Conf>());
	for (auto & s : *l.specs) r.pick(b.all)->specs.push_back(s);
	for (int m = 0; m < n; ++m) if (m > 0 && r.chance(1, 3)) b.all[r.below((uint64_t) m)]->extra.push_back(b.all[(size_t) m]); else b.top.push_back(b.all[(size_t) m]);
	b.variadic = r.chance(1, 2);
	return b;
}
template <typename F> static auto withConfs(const Built & b, F && f) {
	if (b.variadic) switch (b.top.size()) {
		case 1: return f(*b.top[0]);
		case 2: return f(*b.top[0], *b.top[1]);
		case 3: return f(*b.top[0], *b.top[1], *b.top[2]);
		default: break;
	}
	return f(std::vector<std::shared_ptr<InjectorConfiguration>>(b.top.begin(), b.top.end()));
}
static std::shared_ptr<Injector> createLevel(const std::shared_ptr<Injector> & parent, const Built & b) {
	return withConfs(b, [&] (const auto & ... c) { return parent ? parent->createChild(c ...) : Injector::create(c ...); });
}
static int refusalOf(const std::function<void ()> & f, string & text) {
	try { f(); return 0; }
	catch (const Exception::DuplicateBindingException & e) { text = e.what(); return Duplicate; }
	catch (const Exception::MissingDependencyException & e) { text = e.what(); return Missing; }
	catch (const Exception::CyclicDependencyException & e) { text = e.what(); return Cycle; }
	catch (const Exception::SharedInjectorException & e) { text = e.what(); return SharedInj; }
}
static void resetRecords() {
	const uint32_t n = nextSerial.load();
	(void) n;
	nextSerial = 1; doubleDeath = 0; injectorCallbacks = 0; expectedInjectorCallbacks = 0; boomIn = 0; tlThread = 0; tlExternal = false;
}
static int aliveInjected(string * which = nullptr) {
	int n = 0;
	for (uint32_t s = 1; s < nextSerial; ++s) if (recs[s].alive.load() && !recs[s].external.load()) { ++n; if (which && n < 6) *which += " C" + to_string(recs[s].cls.load()) + "#" + to_string(s); }
	return n;
}
static int aliveAny(string * which) {
	int n = 0;
	for (uint32_t s = 1; s < nextSerial; ++s) if (recs[s].alive.load()) { ++n; if (n < 6) *which += " C" + to_string(recs[s].cls.load()) + "#" + to_string(s) + (recs[s].external.load() ? "e" : ""); }
	return n;
}
static int constructedInjected() {
	int n = 0;
	for (uint32_t s = 1; s < nextSerial; ++s) if (!recs[s].external.load()) ++n;
	return n;
}
static std::vector<std::pair<DT, string>> requestsFor(Level & l, vf::Rng & r, bool exact = false) { // keys that resolve at the level
	std::vector<std::pair<DT, string>> v;
	for (Level * x = &l; x; x = x->parent) for (auto & s : *x->specs) {
		switch (s->fam) {
			case FI: v.push_back({ exact ? VI : r.of({ VI, CVI }), s->name }); break;
			case FS: v.push_back({ VS, s->name }); break;
			case F0: v.push_back({ V0, s->name }); break;
			case FUA: v.push_back({ r.of({ UA, UCA }), s->name }); break;
			case FUD: v.push_back({ UD, s->name }); break;
			case FUB: v.push_back({ UB, s->name }); break;
			case FRA: v.push_back({ exact ? RA : r.of({ RA, RCA }), s->name }); break;
			case FRC: v.push_back({ RCA, s->name }); break;
			case FSA: v.push_back({ exact ? SA : r.of({ SA, SA, SCA, WA, WCA }), s->name }); break;
			case FSC: v.push_back({ exact ? SCA : r.of({ SCA, WCA }), s->name }); break;
			case FSB: v.push_back({ SB, s->name }); break;
			case FSX: v.push_back({ SX, s->name }); break;
			default: break;
		}
	}
	return v;
}

static void checkKeys(Level & l, Judge & j, vf::Rng & r) {
	Injector & i = *l.inj;
	for (const char * name : { "", "a", "b", "c", "name with space", "nowhere" }) {
		auto one = [&] (bool got, Fam f) { if (got != (bool) findKey(&l, f, name)) j.bad("P11/has-binding", string("hasBinding for ") + famName[f] + " '" + name + "' at level " + to_string(l.id) + " is " + to_string(got)); };
		one(i.hasBinding<int>(name), FI); one(i.hasBinding<const int>(name), FI); one(i.hasBinding<string>(name), FS); one(i.hasBinding<C0>(name), F0);
		one(i.hasBinding<std::unique_ptr<A>>(name), FUA); one(i.hasBinding<std::unique_ptr<A, DelA>>(name), FUD); one(i.hasBinding<std::unique_ptr<B>>(name), FUB);
		one(i.hasBinding<A &>(name), FRA); one(i.hasBinding<std::shared_ptr<A>>(name), FSA); one(i.hasBinding<std::shared_ptr<B>>(name), FSB); one(i.hasBinding<std::shared_ptr<C0>>(name), FSX);
		if (!findKey(&l, FRA, name)) one(i.hasBinding<const A &>(name), FRC);
		if (!findKey(&l, FSA, name)) one(i.hasBinding<std::shared_ptr<const A>>(name), FSC);
	}
	auto lines = [] (const string & t) { return t.empty() ? (size_t) 0 : (size_t) std::count(t.begin(), t.end(), '\n') + 1; };
	size_t own = l.specs->size(), all = 0;
	for (Level * x = &l; x; x = x->parent) all += x->specs->size();
	if (lines(i.printBindings()) != own || lines(i.printBindings(true)) != all) j.bad("P11/print", "printBindings lists " + to_string(lines(i.printBindings())) + " and " + to_string(lines(i.printBindings(true))) + " bindings instead of " + to_string(own) + " and " + to_string(all));
	size_t deps = 0;
	for (Level * x = &l; x; x = x->parent) for (auto & s : *x->specs) { ++deps; if (s->injected()) deps += classDeps[s->cls].size(); }
	if (lines(i.printBindingsDetailed()) != deps) j.bad("P11/print", "printBindingsDetailed has " + to_string(lines(i.printBindingsDetailed())) + " lines instead of " + to_string(deps));
	vf::count("bindings looked up", 6 * 13);
	(void) r;
}
static void iterateLevel(Level & l, Judge & j, vf::Rng & r, std::vector<Handle> & handles) {
	const bool local = r.chance(1, 2);
	std::multiset<uint32_t> seen;
	std::vector<std::shared_ptr<A>> got;
	l.inj->iterate(std::function<void (std::shared_ptr<A>)>([&] (std::shared_ptr<A> p) { got.push_back(p); }), local);
	size_t expected = 0;
	for (size_t m = 0; m < l.specs->size(); ++m) { const Spec & s = *(*l.specs)[m]; if (s.fam == FSA && (local || !s.local())) ++expected; }
	for (auto & p : got) if (!p) { j.bad("P11/null", "iterate gave a null pointer"); return; } else seen.insert(p->self().serial);
	if (got.size() != expected || std::set<uint32_t>(seen.begin(), seen.end()).size() > got.size()) j.bad("P11/iterate", "iterate called the function " + to_string(got.size()) + " times for " + to_string(expected) + " bindings of level " + to_string(l.id));
	for (size_t m = 0; m < l.specs->size(); ++m) {
		const Spec & s = *(*l.specs)[m];
		if (s.fam != FSA || (!local && s.local())) continue;
		Handle h; obtain(*l.inj, SA, s.name, 0, h); h.from = &l; h.thread = tlThread;
		if (!seen.count(h.kid.a->self().serial)) j.bad("P11/iterate", "iterate left out " + s.text_());
		handles.push_back(std::move(h));
	}
	vf::count("iterations");
}

struct CaseEnd { ~CaseEnd() { inject::enabled = false; } };

// Callback bookkeeping of one injector.
struct Calls { std::atomic<int> post { 0 }, pre { 0 }, wrongInjector { 0 }, deadAtPre { 0 }, eagerMissing { 0 }; int nPost = 0, nPre = 0; bool twice = false; std::shared_ptr<A> stat; bool hasStat = false; string statName; std::vector<uint32_t> mustLive; const Injector * injector = nullptr; };

static void addCalls(Built & b, Level & l, std::shared_ptr<Calls> c, vf::Rng & r) {
	for (auto & conf : b.all) {
		int np = (int) r.below(3), nq = (int) r.below(3);
		for (int m = 0; m < np; ++m) { conf->post.push_back([c] (const Injector & i) { c->post.fetch_add(1); if (c->injector && c->injector != &i) c->wrongInjector = 1; c->injector = &i; }); ++c->nPost; }
		for (int m = 0; m < nq; ++m) { conf->pre.push_back([c] { c->pre.fetch_add(1); for (auto s : c->mustLive) if (!recs[s].alive.load()) c->deadAtPre.store((int) s); }); ++c->nPre; }
	}
	if (r.chance(1, 2)) for (auto & s : *l.specs) if (s->fam == FSA && !s->local() && r.chance(1, 2)) { c->hasStat = true; c->statName = s->name; r.pick(b.all)->statics.emplace_back(&c->stat, s->name); break; }
}

static vf::Mode graphs("graphs", [] (int64_t, vf::Rng & r) {
	CaseEnd ce; resetRecords();
	World w(r);
	Judge j;
	std::vector<Handle> handles;
	std::map<Level *, std::shared_ptr<Calls>> calls;
	std::map<Level *, std::vector<Built>> builts;
	const bool withBoom = r.chance(1, 6);
	bool boomed = false;
	string story;
	auto note = [&] { j.where = story + describeNames(); };
	uint64_t h = 3;

	auto makeLevel = [&] (Level * parent) -> Level * {
		Level & l = w.add(parent);
		w.fill(l, (int) r.range(1, 9));
		if (r.chance(1, 4)) w.breakIt(l);
		Built b = split(l, r);
		auto c = std::make_shared<Calls>();
		addCalls(b, l, c, r);
		story += describe(&l) + "; "; note();
		const int expected = predict(&l);
		const int before = constructedInjected();
		string text;
		// Validation alone.
		if (r.chance(1, 3)) {
			std::vector<Level *> chain; for (Level * x = parent; x; x = x->parent) chain.push_back(x);
			bool can = true; for (Level * x : chain) can = can && !builts[x].empty();
			if (can) {
				int got = refusalOf([&] {
					std::optional<Injector::ValidationParent> v;
					for (auto it = chain.rbegin(); it != chain.rend(); ++it) {
						const Built & pb = builts[*it][0];
						v = withConfs(pb, [&] (const auto & ... cf) { return v ? Injector::validateChild(*v, cf ...) : Injector::validate(cf ...); });
					}
					withConfs(b, [&] (const auto & ... cf) { return v ? Injector::validateChild(*v, cf ...) : Injector::validate(cf ...); });
				}, text);
				if ((got == 0) != (expected == 0) || (got & ~expected)) j.bad("P11/validation", "validation refused with " + to_string(got) + " (" + vf::show(text, 300) + ") where " + to_string(expected) + " is right");
				if (constructedInjected() != before) j.bad("P11/validation-creates", "validation created objects");
				vf::count(expected ? "validations refused" : "validations accepted");
				for (auto & cc : calls) if (cc.second->pre.load()) { cc.second->pre = 0; } // validated injectors may run the pre-destruction callbacks
				c->pre = 0; 
				if (c->post.load()) j.bad("P11/callbacks", "validation ran post-construction callbacks");
			}
		}
		c->injector = nullptr; c->wrongInjector = 0;
		if (withBoom && r.chance(1, 2)) boomIn = (int) r.range(1, 4);
		std::shared_ptr<Injector> inj;
		int got = 0; bool boom = false;
		std::shared_ptr<Injector> pi = parent ? parent->inj : nullptr;
		if (parent && r.chance(1, 2)) pi = std::const_pointer_cast<Injector>(pi);
		try { got = refusalOf([&] { inj = createLevel(pi, b); }, text); } catch (const Boom &) { boom = boomed = true; }
		if (boom) {
			if (expected) j.bad("P11/refusal", "a configuration that must be refused was instantiated");
			c->post = 0; c->pre = 0; c->stat.reset();
			expectedInjectorCallbacks = injectorCallbacks.load(); // the abandoned injector may run its callbacks or not
			vf::count("constructors that threw");
			boomIn = 0;
			c->injector = nullptr;
			got = refusalOf([&] { inj = createLevel(pi, b); }, text);
		}
		boomIn = 0;
		if ((got == 0) != (expected == 0) || (got & ~expected)) {
			j.bad(expected ? "P11/refusal" : "P11/refused", "creation of level " + to_string(l.id) + " gave " + to_string(got) + " (" + vf::show(text, 300) + ") where " + to_string(expected) + " is right");
			return nullptr;
		}
		if (expected) {
			if (!boomed && constructedInjected() != before) j.bad("P11/refusal", "a refused configuration instantiated objects");
			for (int k = 0; k < 4; ++k) if (got == 1 << k) vf::count(k == 0 ? "refused duplicate" : k == 1 ? "refused missing" : k == 2 ? "refused cycle" : "refused shared injector");
			return nullptr;
		}
		l.inj = inj; l.raw = inj.get(); calls[&l] = c; builts[&l].push_back(b);
		vf::count("injectors");
		if (c->post != c->nPost || (c->nPost && c->injector != l.raw)) j.bad("P11/callbacks", to_string(c->post.load()) + " of " + to_string(c->nPost) + " post-construction callbacks ran, or with another injector");
		if (c->wrongInjector) j.bad("P11/callbacks", "post-construction callbacks got different injectors");
		if (c->pre) j.bad("P11/callbacks", "pre-destruction callbacks ran during the creation");
		if (c->hasStat) {
			if (!c->stat) j.bad("P11/static", "the static singleton pointer is not set after the creation");
			else { Handle x; obtain(*inj, SA, c->statName, 0, x); if (x.kid.a != c->stat.get()) j.bad("P11/static", "the static singleton pointer does not point to the singleton"); x.from = &l; x.thread = 0; handles.push_back(std::move(x)); vf::count("static singletons"); }
		}
		// Eager singletons exist now: asking for them creates nothing.
		const int made = constructedInjected();
		for (auto & s : *l.specs) if (s->how == Eager || s->how == EagerDel || (s->shared() && (s->how == ClsProv || s->how == Fn || s->how == InstProv))) {
			Handle x; DT d = s->fam == FSA ? SA : s->fam == FSC ? SCA : s->fam == FSB ? SB : SX;
			obtain(*inj, d, s->name, 0, x); x.from = &l; x.thread = 0; handles.push_back(std::move(x));
			vf::count("eager singletons");
			if ((s->how == Fn || s->how == InstProv) && s->calls->load() < 1) j.bad("P11/eager", s->text_() + " was not called at the creation");
		}
		if (constructedInjected() != made) j.bad("P11/eager", "eager singletons were not instantiated at the creation");
		for (auto & s : *l.specs) h = vf::mix(h, vf::mix((uint64_t) s->fam * 1000 + (uint64_t) s->how * 50 + (uint64_t) (s->cls + 1), vf::hashStr(s->name)));
		return &l;
	};
	Level * root = makeLevel(nullptr);
	std::vector<Level *> live; if (root) live.push_back(root);
	auto request = [&] (Level & l, DT d, const string & name, int form) {
		Handle x; x.from = &l; x.thread = tlThread;
		if (!resolve(&l, d, name) && d != WI && d != SI) { unbound(*l.inj, d, name, form, j, string(dtName[d]) + " '" + name + "'"); return; }
		for (int attempt = 0; ; ++attempt) {
			try { obtain(*l.inj, d, name, form >= 3 && resolve(&l, d, name) ? form + 97 : form, x); break; }
			catch (const Boom &) { boomed = true; vf::count("constructors that threw"); boomIn = 0; if (attempt > 3) throw; }
		}
		boomIn = 0;
		vf::count("requests"); vf::count(string("requested ") + dtName[d]);
		j.judge(x.kid, &l, d, name, tlThread, "request");
		if (x.keep && handles.size() < 300) handles.push_back(std::move(x));
	};
	const int steps = (int) r.range(5, 40);
	for (int m = 0; m < steps && j.ok && !live.empty(); ++m) {
		Level & l = *r.pick(live);
		int k = (int) r.below(20);
		if (k < 11) { auto q = requestsFor(l, r); if (!q.empty()) { auto & x = r.pick(q); if (withBoom && r.chance(1, 3)) boomIn = (int) r.range(1, 3); request(l, x.first, x.second, (int) r.below(6)); } }
		else if (k < 14) request(l, (DT) r.below(NDT), w.randName(), (int) r.below(6));
		else if (k == 14) checkKeys(l, j, r);
		else if (k == 15) iterateLevel(l, j, r, handles);
		else if (k == 16 && live.size() < 5) { int depth = 0; for (Level * x = &l; x; x = x->parent) ++depth; if (depth < 4) { if (Level * n = makeLevel(&l)) { live.push_back(n); vf::count("child injectors"); } } }
		else if (k == 17 && live.size() < 5 && l.parent) { // prototype
			Level & n = w.add(l.parent); n.specs = l.specs; n.bindingSet = l.bindingSet;
			n.inj = l.parent->inj->createChild(l.inj); n.raw = n.inj.get();
			j.injectors[n.bindingSet].insert(n.raw); j.injectors[n.bindingSet].insert(l.raw);
			calls[&n] = std::make_shared<Calls>();
			live.push_back(&n); vf::count("children of a prototype"); story += "level " + to_string(n.id) + " from prototype " + to_string(l.id) + "; "; note();
		} else if (k == 18 && !handles.empty()) { handles.erase(handles.begin() + (long) r.below(handles.size())); }
		else if (k == 19 && live.size() < 5 && !builts[&l].empty() && r.chance(1, 2)) { // the same configuration objects, once more
			auto & b = builts[&l][0];
			bool raw = false; for (auto & s : *l.specs) raw = raw || s->how == Given;
			Level & n = w.add(l.parent); n.specs = std::make_shared<std::vector<SpecP>>(*l.specs);
			auto c = std::make_shared<Calls>(); auto & old = *calls[&l];
			const int p0 = old.post;
			if (old.hasStat) continue; // one pointer for two injectors
			string text; int got = 0;
			old.injector = nullptr;
			try { got = refusalOf([&] { n.inj = createLevel(l.parent ? l.parent->inj : nullptr, b); }, text); } catch (const Boom &) { boomed = true; w.levels.back()->inj.reset(); expectedInjectorCallbacks = injectorCallbacks.load(); break; }
			if (got) { j.bad("P11/refused", "the second creation from the same configuration objects was refused with " + to_string(got) + " " + vf::show(text, 200)); break; }
			n.raw = n.inj.get();
			if (old.post - p0 != old.nPost) j.bad("P11/callbacks", "the second creation from the same configuration objects ran " + to_string(old.post - p0) + " post-construction callbacks instead of " + to_string(old.nPost));
			calls[&n] = c; n.bindingSet = ++w.sets;
			old.nPost *= 2; old.nPre *= 2; old.twice = true; old.injector = nullptr; // both injectors report here
			builts[&l].clear();
			live.push_back(&n); vf::count("configurations used again"); story += "level " + to_string(n.id) + " as level " + to_string(l.id) + "; "; note();
			(void) raw;
		}
	}
	boomIn = 0;
	if (j.ok && !live.empty()) {
		for (Level * l : live) for (auto & q : requestsFor(*l, r, true)) request(*l, q.first, q.second, (int) r.below(6));
		// Everything that lives: the objects held and those of the injectors.
		for (auto & x : handles) if (x.dt >= RA && x.dt <= SX) j.judge(x.kid, x.from, x.dt, x.name, x.thread, "handle");
	}
	vf::count("objects", (uint64_t) constructedInjected());
	vf::distinct(h);
	// The end: injectors first or handles first.
	if (j.ok) {
		uint32_t end = nextSerial;
		if (!boomed) for (uint32_t s = 1; s < end; ++s) if (!recs[s].external.load() && !j.owner.count(s)) { if (recs[s].alive.load() || true) { j.bad("P11/needless", "object C" + to_string(recs[s].cls.load()) + " #" + to_string(s) + " was made for no request"); break; } }
		for (auto & c : calls) for (auto & sg : j.singletons) if (!c.second->twice && std::get<0>(sg.first) == c.first->bindingSet && !recs[sg.second].external.load()) c.second->mustLive.push_back(sg.second);
	}
	const bool handlesFirst = r.chance(1, 2);
	if (handlesFirst) handles.clear();
	while (!live.empty()) { // any order: children keep their parents
		size_t k = r.below(live.size());
		Level * l = live[k]; live.erase(live.begin() + (long) k);
		l->inj.reset();
	}
	for (auto & l : w.levels) l->inj.reset();
	if (!handlesFirst) {
		for (auto & x : handles) if (x.keep && (x.kid.a || x.kid.b || x.kid.o) && x.dt != WA && x.dt != WCA && x.dt != WI) {
			const Obj & o = x.kid.a ? x.kid.a->self() : x.kid.b ? x.kid.b->selfB() : *x.kid.o;
			if (o.magic != Obj::MAGIC || recs[o.serial].alive != 1) j.bad("P11/dead", "an object that is held was destroyed with the injector");
			else if (o.cls != 3 && o.cls != 6) { std::vector<Kid> ks; o.kids(ks); }
			vf::count("objects that outlive the injector");
		}
		handles.clear();
	}
	for (auto & c : calls) {
		if (c.second->pre != c.second->nPre) j.bad("P11/callbacks", to_string(c.second->pre.load()) + " pre-destruction callbacks of level " + to_string(c.first->id) + " ran instead of " + to_string(c.second->nPre));
		if (c.second->deadAtPre) j.bad("P11/callbacks", "a pre-destruction callback ran after the singleton #" + to_string(c.second->deadAtPre.load()) + " of its injector was destroyed");
		if (c.second->stat) j.bad("P11/static", "the static singleton pointer is still set after the destruction");
		vf::count("callbacks", (uint64_t) (c.second->nPre + c.second->nPost));
	}
	if (!boomed && injectorCallbacks != expectedInjectorCallbacks) j.bad("P11/callbacks", to_string(injectorCallbacks.load()) + " of " + to_string(expectedInjectorCallbacks.load()) + " callbacks registered with an injected injector ran");
	for (auto & b : builts) for (auto & x : b.second) for (auto & cf : x.all) { cf->specs.clear(); }
	builts.clear(); w.levels.clear();
	string which;
	if (int n = aliveAny(&which)) j.bad("P11/leak", to_string(n) + " objects are alive after the end:" + which);
	if (doubleDeath) j.bad("P11/double-destruction", "an object was destroyed twice or used after its destruction");
	for (auto & d : j.deleters) if (recs[d.first].deleter.load() != d.second) { j.bad("P11/deleter", "object #" + to_string(d.first) + " C" + to_string(recs[d.first].cls.load()) + " was deleted with " + to_string(recs[d.first].deleter.load()) + " calls of the specified deleter instead of " + to_string(d.second)); break; }
	vf::count("judgements", j.n);
	vf::sample(story.substr(0, 400));
});

// Threads that share injectors, and make and drop children of their own. The threads outlive the
// injectors of a round.
struct Op { int kind; int level; DT dt; string name; int form; };
struct Per { // one thread in one round
	std::vector<Op> plan;
	std::unique_ptr<Level> own; Built ownBuilt, check;
	std::vector<Handle> handles;
	std::vector<string> bad;
	uint64_t n = 0;
};
static vf::Mode threads("threads", [] (int64_t, vf::Rng & r) {
	CaseEnd ce; resetRecords();
	World w(r);
	Judge j;
	const int T = (int) r.range(2, 5), R = (int) r.range(1, 3);
	std::vector<Level *> live;
	std::vector<Per> per((size_t) T);
	std::atomic<int> phase { 0 }, arrived { 0 };
	std::atomic<bool> boomed { false };
	uint64_t h = 5;
	inject::seed(r.next()); inject::intensity = r.of({ 1u, 2u, 4u, 16u, 1000u }); inject::spuriousRate = 1000000u;
	inject::enabled = true;
	auto arrive = [&] (int p) { arrived.fetch_add(1); while (phase.load() < p) std::this_thread::yield(); };
	auto work = [&] (int t, int base, uint64_t sd) {
		vf::Watch watch; vf::Rng g(sd);
		tlThread = t + 1;
		(void) base;
		for (int round = 0; round < R; ++round) {
			arrive(round * 3 + 1);
			Per & me = per[(size_t) t];
			std::shared_ptr<Injector> held;
			for (auto & o : me.plan) {
				Level * l = o.level < (int) live.size() ? live[(size_t) o.level] : me.own.get();
				if (g.chance(1, 3)) vf::pause(g);
				try {
					switch (o.kind) {
						case 0: {
							if (!l->inj) break;
							Handle x; x.from = l; x.thread = t + 1;
							for (int attempt = 0; ; ++attempt) {
								try { obtain(*l->inj, o.dt, o.name, o.form, x); break; } catch (const Boom &) { boomed = true; if (attempt > 8) throw; }
							}
							++me.n;
							me.handles.push_back(std::move(x));
							break;
						}
						case 1: if (!me.own->inj) { me.own->inj = createLevel(live.back()->inj, me.ownBuilt); me.own->raw = me.own->inj.get(); } break;
						case 2: held = me.own->inj; break;
						case 3: l = live[0]; l->inj->printBindings(true); if (!l->inj->hasBinding<std::shared_ptr<Injector>>("x") && l->inj->hasBinding<int>(o.name) != (bool) findKey(l, FI, o.name)) me.bad.push_back("hasBinding"); break;
						case 4: { int n = 0, e = 0; l = live[0]; l->inj->iterate(std::function<void (std::shared_ptr<A>)>([&] (std::shared_ptr<A> p) { n += p != nullptr; }), true); for (auto & s : *l->specs) e += s->fam == FSA; if (n != e) me.bad.push_back("iterate"); break; }
						case 5: withConfs(me.check, [&] (const auto & ... c) { Injector::validate(c ...); return 0; }); break;
						default: { bool refused = false; try { l = live[0]; l->inj->getShared<A>("nowhere"); } catch (const Exception::NoBindingException &) { refused = true; } if (!refused) me.bad.push_back("unbound request is not refused"); }
					}
				} catch (const Boom &) { boomed = true; }
				catch (const std::exception & e) { me.bad.push_back(string("kind ") + to_string(o.kind) + ": " + e.what()); }
			}
			held.reset();
			arrive(round * 3 + 2); // judged by the main thread
			me.handles.clear();
			if (g.chance(1, 2)) me.own.reset();
			arrive(round * 3 + 3);
		}
	};
	auto settle = [&] (int p, const std::function<void ()> & then) {
		if (!vf::awaitOrStuck([&] { return arrived.load() == T; })) vf::fatalViolation("P11/stuck", to_string(arrived.load()) + " of " + to_string(T) + " threads are done, the others sleep for ever | " + j.where);
		arrived = 0;
		then();
		phase = p;
	};
	std::vector<std::thread> ts;
	for (int t = 0; t < T; ++t) ts.emplace_back(work, t, 0, r.next());
	std::vector<Built> keep;
	for (int round = 0; round < R; ++round) {
		settle(round * 3 + 1, [&] {
			keep.clear(); live.clear();
			string story;
			Level & root = w.add(nullptr); w.fill(root, (int) r.range(2, 9)); live.push_back(&root);
			if (r.chance(1, 2)) { Level & c = w.add(&root); w.fill(c, (int) r.range(1, 6)); live.push_back(&c); }
			Level & kid = w.add(live.back()); w.fill(kid, (int) r.range(1, 5));
			for (Level * l : { &root, live.back(), &kid }) { story += describe(l) + "; "; for (auto & s : *l->specs) h = vf::mix(h, vf::mix((uint64_t) s->fam * 1000 + (uint64_t) s->how * 50 + (uint64_t) (s->cls + 1), vf::hashStr(s->name))); }
			j.where = "round " + to_string(round) + " of " + to_string(T) + " threads: " + story + describeNames();
			for (Level * l : live) { keep.push_back(split(*l, r)); l->inj = createLevel(l->parent ? l->parent->inj : nullptr, keep.back()); l->raw = l->inj.get(); vf::count("injectors"); }
			for (int t = 0; t < T; ++t) {
				Per & p = per[(size_t) t];
				p = Per();
				p.own = std::make_unique<Level>(); p.own->id = 100 + t; p.own->parent = live.back(); p.own->specs = std::make_shared<std::vector<SpecP>>(*kid.specs); p.own->bindingSet = ++w.sets;
				p.ownBuilt = split(*p.own, r); p.check = split(root, r);
				auto common = requestsFor(*live.back(), r);
				const int n = (int) r.range(3, 18);
				const bool child = r.chance(2, 3);
				if (child) p.plan.push_back({ 1, 0, VI, "", 0 });
				for (int m = 0; m < n; ++m) {
					Op o { r.of({ 0, 0, 0, 0, 0, 0, 0, 0, 2, 3, 4, 5, 6 }), (int) r.below(live.size() + (child ? 1 : 0)), VI, "", (int) r.below(6) };
					if (o.kind == 0) {
						Level * l = o.level < (int) live.size() ? live[(size_t) o.level] : p.own.get();
						auto q = requestsFor(*l, r); if (q.empty()) continue;
						auto & x = r.pick(q); if (x.first == WA || x.first == WCA) x.first = SA; // (judged after the request)
						if (!resolve(l, x.first, x.second)) x.first = SCA;
						o.dt = x.first; o.name = x.second;
					} else if (o.kind == 3) o.name = w.randName();
					p.plan.push_back(o);
				}
			}
			if (r.chance(1, 8)) boomIn = (int) r.range(1, 6);
		});
		settle(round * 3 + 2, [&] {
			boomIn = 0;
			for (auto & p : per) {
				for (auto & b : p.bad) j.bad("P11/concurrent", b);
				for (auto & x : p.handles) if (j.ok) j.judge(x.kid, x.from, x.dt, x.name, x.thread, "thread " + to_string(x.thread));
				vf::count("concurrent requests", p.n);
			}
		});
		settle(round * 3 + 3, [&] { for (Level * l : live) l->inj.reset(); vf::count("rounds"); for (auto & p : per) if (p.own) p.own->inj.reset(); });
	}
	for (auto & t : ts) t.join();
	inject::enabled = false;
	keep.clear(); per.clear(); live.clear(); w.levels.clear();
	string which;
	if (int n = aliveAny(&which)) j.bad("P11/leak", to_string(n) + " objects are alive after the end:" + which);
	if (doubleDeath) j.bad("P11/double-destruction", "an object was destroyed twice or used after its destruction");
	for (auto & d : j.deleters) if (recs[d.first].deleter.load() != d.second) { j.bad("P11/deleter", "object #" + to_string(d.first) + " was deleted with " + to_string(recs[d.first].deleter.load()) + " calls of the specified deleter instead of " + to_string(d.second)); break; }
	if (!boomed && injectorCallbacks != expectedInjectorCallbacks) j.bad("P11/callbacks", to_string(injectorCallbacks.load()) + " of " + to_string(expectedInjectorCallbacks.load()) + " callbacks registered with an injected injector ran");
	vf::distinct(h); vf::count("judgements", j.n); vf::count("objects", (uint64_t) constructedInjected());
	vf::sample(j.where.substr(0, 400));
});
