// Integer vectors: every public operation of int2..4, uint2..4, i32x4, u32x4 is recorded as one event of the
// vector register machine (spec/VecInt.tla). Words are recorded as their signed 32-bit value.
#include <map>
#include "h.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/int.hpp"
#include "math/simd/vector/uint.hpp"
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
#include "math/color.hpp"
#include "math/simd/matrix/float.hpp"
using namespace math;
using namespace h;

template<class V> struct Tr;
#define TR(V, S, N, SG, SI, M, NAME) template<> struct Tr<V> { typedef S Sc; typedef M Mask; enum { n = N, sg = SG, simd = SI }; \
	static const char* name() { return NAME; } };
TR(int2, int32, 2, 1, 0, uint2, "int2") TR(int3, int32, 3, 1, 0, uint3, "int3") TR(int4, int32, 4, 1, 0, uint4, "int4")
TR(uint2, uint32, 2, 0, 0, uint2, "uint2") TR(uint3, uint32, 3, 0, 0, uint3, "uint3") TR(uint4, uint32, 4, 0, 0, uint4, "uint4")
TR(i32x4, int32, 4, 1, 1, u32x4, "i32x4") TR(u32x4, uint32, 4, 0, 1, u32x4, "u32x4")

template<class V> V mk(const uint32* a);
template<> int2 mk(const uint32* a) { return int2((int32)a[0], (int32)a[1]); }
template<> int3 mk(const uint32* a) { return int3((int32)a[0], (int32)a[1], (int32)a[2]); }
template<> int4 mk(const uint32* a) { return int4((int32)a[0], (int32)a[1], (int32)a[2], (int32)a[3]); }
template<> uint2 mk(const uint32* a) { return uint2(a[0], a[1]); }
template<> uint3 mk(const uint32* a) { return uint3(a[0], a[1], a[2]); }
template<> uint4 mk(const uint32* a) { return uint4(a[0], a[1], a[2], a[3]); }
template<> i32x4 mk(const uint32* a) { return i32x4((int32)a[0], (int32)a[1], (int32)a[2], (int32)a[3]); }
template<> u32x4 mk(const uint32* a) { return u32x4(a[0], a[1], a[2], a[3]); }

template<class V> Ints lanes(const V& v) { Ints r; for (int i = 0; i < Tr<V>::n; i++) r.push_back((int32)v[i]); return r; }
static Ints words(const uint32* a, int n) { Ints r; for (int i = 0; i < n; i++) r.push_back((int32)a[i]); return r; }

static const uint32 edge[] = { 0, 1, 2, 3, 5, 7, 31, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0xFFFFFFFEu,
	0xFFFF0000u, 0xAAAAAAAAu, 0x55555555u, 0x00800000u, 46341, 0x12345678u, 0xFEDCBA98u };
static uint32 anyWord(Rng& r)
{
	switch (r.range(0, 3)) { case 0: return edge[r.range(0, sizeof edge / 4 - 1)]; case 1: return (uint32)r.range(-20, 20); case 2: return r.u32() >> r.range(0, 31); default: return r.u32(); }
}

template<class V> struct Machine
{
	typedef typename Tr<V>::Sc S; typedef typename Tr<V>::Mask M;
	enum { N = Tr<V>::n, SG = Tr<V>::sg, SI = Tr<V>::simd };
	V acc = V((S)0);
	unsigned turn = 0;
	void load(const uint32* a)
	{
		acc = mk<V>(a);
		Ev("vload").t("ty", Tr<V>::name()).i("n", N).b("sg", SG).a("a", words(a, N)).a("r", lanes(acc)).end();
	}
	bool divisible(const V& a, const V& b)
	{
		for (int i = 0; i < N; i++)
			if (b[i] == 0 || (SG && (uint32)a[i] == 0x80000000u && (uint32)b[i] == 0xFFFFFFFFu)) return false;
		return true;
	}
	// one binary operator in all of its forms; the register then takes the vector or the scalar form, or stays
	void bin(char f, const uint32* bw, uint32 nw, int keep)
	{
		V b = mk<V>(bw); S n = (S)nw;
		// the operand of every fifth operation in place is the register itself, or one of its lanes
		bool own = ++turn % 5 == 0 && ((f != '>' && f != '<') || ok31(acc)); int at = (int)(turn / 5 % N);
		if (own) { b = acc; n = acc[at]; nw = (uint32)n; if (keep) keep = 0; }
		V vn(n);
		bool shift = f == '>' || f == '<', div = f == '/' || f == '%';
		if (div && (!divisible(acc, b) || !divisible(acc, vn))) return;
		bool rev = div ? divisible(vn, acc) : shift ? ok31(acc) : true;
		V vv = acc, cv = acc, vs = acc, cs = acc; Ints sv; V* ref = nullptr; V* refs = nullptr;
		#define B(C, O) case C: vv = acc O b; ref = &(cv O##= (own ? cv : b)); vs = acc O n; refs = &(cs O##= (own ? cs[at] : n)); if (rev) sv = lanes(n O acc); break;
		switch (f) { B('+', +) B('-', -) B('*', *) B('/', /) B('%', %) B('&', &) B('|', |) B('^', ^) B('>', >>) B('<', <<) }
		#undef B
		Ev("vop").t("f", std::string(1, f)).a("b", own ? lanes(b) : words(bw, N)).i("k", (int32)nw).a("vv", lanes(vv)).a("cv", lanes(cv)).a("vs", lanes(vs))
			.a("cs", lanes(cs)).a("sv", sv).b("refs", ref == &cv && refs == &cs).i("keep", keep).end();
		acc = keep == 1 ? cv : keep == 2 ? cs : acc;
		if (shift && ok31(acc)) { reverse(f, edge[(nw * 5 + bw[0]) % (sizeof edge / 4)]); reverse(f, ~(nw * 0x9E3779B1u)); }
	}
	// any word shifted by the register
	void reverse(char f, uint32 w)
	{
		Ev("vrsh").t("f", std::string(1, f)).i("k", (int32)w).a("sv", lanes(f == '>' ? (S)w >> acc : (S)w << acc)).end();
	}
	static bool ok31(const V& v) { for (int i = 0; i < N; i++) if ((uint32)v[i] > 31) return false; return true; }
	template<class U> static Ints negate(const U& v, std::true_type) { return lanes(-v); }
	template<class U> static Ints negate(const U&, std::false_type) { return Ints(); }
	void un()
	{
		Ev("vun").a("neg", negate(acc, std::integral_constant<bool, (bool)SG || !SI>())).a("not", lanes(!acc)).a("com", lanes(~acc)).end();
	}
	void cmp(const uint32* bw, uint32 nw)
	{
		V b = mk<V>(bw); S n = (S)nw;
		Ev e("vcmp");
		e.a("b", words(bw, N)).i("k", (int32)nw);
		#define C(K, O) e.a(K, lanes(acc O b)).a(K "s", lanes(acc O n)).a("s" K, lanes(n O acc));
		C("lt", <) C("gt", >) C("le", <=) C("ge", >=)
		#undef C
		e.a("eqs", Ints{ acc == b, acc == n, n == acc, !(acc != b), !(acc != n), !(n != acc) });
		e.a("equal", lanes(equal(acc, b))).a("nequal", lanes(notEqual(acc, b))).end();
	}
	template<class U> static Ints min3a(const U& a, const U& b, const U& c, std::false_type) { return lanes(min(a, b, c)); }
	template<class U> static Ints max3a(const U& a, const U& b, const U& c, std::false_type) { return lanes(max(a, b, c)); }
	template<class U> static Ints min3a(const U& a, const U& b, const U& c, std::true_type) { return lanes(min(min(a, b), c)); }
	template<class U> static Ints max3a(const U& a, const U& b, const U& c, std::true_type) { return lanes(max(max(a, b), c)); }
	void sel(const uint32* bw, const uint32* cw, const uint32* mw)
	{
		V b = mk<V>(bw), c = mk<V>(cw); M m = mk<M>(mw);
		typedef std::integral_constant<bool, (bool)SI> Simd;
		V lo = min(b, c), hi = max(b, c);
		Ev("vsel").a("b", words(bw, N)).a("c", words(cw, N)).a("m", words(mw, N)).a("min", lanes(min(acc, b))).a("max", lanes(max(acc, b)))
			.a("min3", min3a(acc, b, c, Simd())).a("max3", max3a(acc, b, c, Simd()))
			.a("clamp", lanes(clamp(acc, lo, hi))).a("select", lanes(select(m, acc, b))).end();
	}
	void set(int i, uint32 v) { acc[i] = (S)v; const V& c = acc; Ev("vset").i("i", i + 1).i("v", (int32)v).a("r", lanes(c)).end(); }
	void assign(uint32 v) { acc = (S)v; Ev("vfill").i("v", (int32)v).a("r", lanes(acc)).end(); }
	void red(std::true_type)
	{
		Ev("vred").a("r", Ints{ (int32)min(acc), (int32)max(acc), (int32)min4(acc), (int32)max4(acc), (int32)min3(acc), (int32)max3(acc) }).end();
	}
	void red(std::false_type) { }
	void mask(std::true_type)
	{
		Ev("vmask").i("trues", getTrues(acc)).a("r", Ints{ areAllTrue(acc), areAllFalse(acc), areAnyTrue(acc), areAnyFalse(acc) }).end();
	}
	void mask(std::false_type) { }
	template<class U> void bicT(const uint32* bw, std::true_type)
	{ U b = mk<U>(bw); Ev("vbic").a("b", words(bw, N)).a("r", lanes(bic(acc, b))).end(); }
	template<class U> void bicT(const uint32*, std::false_type) { }

	void random(Rng& r, int steps)
	{
		typedef std::integral_constant<bool, (bool)SI> Simd; typedef std::integral_constant<bool, !SG> Uns;
		uint32 a[4], b[4], c[4], m[4];
		static const char fs[] = "+-*/%&|^><";
		rec.episode();
		for (auto& x : a) x = anyWord(r);
		load(a);
		for (int s = 0; s < steps; s++)
		{
			for (int i = 0; i < 4; i++) { a[i] = anyWord(r); b[i] = anyWord(r); c[i] = anyWord(r); m[i] = r.coin() ? (r.coin() ? ~0u : 0) : r.u32(); }
			if (r.range(0, 3) == 0) for (int i = 0; i < 4; i++) b[i] = (uint32)lanes(acc)[i % N];         // equal operands
			if (r.range(0, 3) == 0) { int k = r.range(0, 3); for (int i = 0; i < 4; i++) if (i != k) b[i] = (uint32)lanes(acc)[i % N]; } // all lanes equal but one
			switch (r.range(0, 11))
			{
			case 0: load(a); break;
			case 1: un(); break;
			case 2: cmp(b, r.coin() ? anyWord(r) : (uint32)acc[r.range(0, N - 1)]); break;
			case 3: sel(b, c, m); break;
			case 4: set(r.range(0, N - 1), a[0]); break;
			case 5: if (r.range(0, 3) == 0) assign(a[0]); else load(a); break;
			case 6: red(Simd()); break;
			case 7: { uint32 k[4]; int w = r.range(0, 3); for (int i = 0; i < 4; i++) k[i] = w == 0 ? ~0u : w == 1 ? 0 : r.coin() ? ~0u : 0;
				if (r.coin()) k[r.range(0, 3)] = r.coin() ? 0u : ~0u; if (r.range(0, 2) == 0) k[r.range(0, 3)] = anyWord(r); load(k); mask(Uns()); break; }
			case 8: bicT<V>(b, Simd()); break;
			default:
				char f = fs[r.range(0, 9)]; uint32 n = anyWord(r);
				if (f == '>' || f == '<')
				{
					for (auto& x : b) x = r.range(0, 31); n = r.range(0, 31);
					if (r.range(0, 3) == 0) { for (auto& x : a) x = r.range(0, 31); load(a); }
				}
				if (f == '/' || f == '%') { for (auto& x : b) if (!x) x = 1 + r.range(0, 9); if (!n) n = 3; }
				bin(f, b, n, r.range(0, 2));
			}
			if (rec.events >= rec.perFile) rec.open(), load(a);
		}
	}
	// every operator on every pair of edge words
	void exhaustive()
	{
		const int E = sizeof edge / 4; uint32 a[4], b[4];
		for (int x = 0; x < E; x++)
		{
			rec.episode();
			for (int y = 0; y < E; y += N)
			{
				for (int i = 0; i < 4; i++) { a[i] = edge[x]; b[i] = edge[(y + i) % E]; }
				load(a);
				for (const char* f = "+-*/%&|^"; *f; f++)
				{
					uint32 k[4]; for (int i = 0; i < 4; i++) k[i] = (*f == '/' || *f == '%') && (b[i] == 0 || (SG && b[i] == ~0u)) ? 9 : b[i];
					bin(*f, k, k[x % N], 0);
				}
				for (int i = 0; i < 4; i++) b[i] = (x + y + i * 7) % 32;
				bin('>', b, (x * 5 + y) % 32, 0); bin('<', b, (x * 3 + y) % 32, 0);
				for (int i = 0; i < 4; i++) b[i] = edge[(y + i) % E];
				cmp(b, edge[y % E]);
				uint32 m[4] = { 0, ~0u, edge[y % E], edge[x] };
				sel(b, a, m); un();
			}
			for (int i = 0; i < 4; i++) a[i] = (x * 4 + i * 9) % 32;
			load(a);
			for (int y = 0; y < E; y++) { reverse('>', edge[y]); reverse('<', edge[y]); }
		}
	}
	// a script of the specification: load of four words, then operation codes with operand indices
	void replay(const std::vector<int>& s)
	{
		static const char fs[] = "+-*&|^";
		rec.episode();
		for (size_t k = 0; k + 2 < s.size(); k += 3)
		{
			uint32 b[4]; for (int i = 0; i < 4; i++) b[i] = edge[(s[k + 1] * (i + 1) + s[k + 2]) % (sizeof edge / 4)];
			uint32 n = edge[s[k + 2] % (sizeof edge / 4)];
			if (k == 0) load(b);
			else if (s[k] < 6) bin(fs[s[k]], b, n, 1 + (s[k + 1] + s[k + 2]) % 2);
			else if (s[k] == 6) set(s[k + 1] % N, n);
			else if (s[k] == 7) cmp(b, n);
			else { for (auto& x : b) x %= 32; bin(s[k + 1] & 1 ? '>' : '<', b, n % 32, 1); }
		}
	}
	void go(const std::string& what, Rng& r, bool thorough, const char* script)
	{
		if (what == "random") random(r, thorough ? 30000 : 1500);
		else if (what == "edges") exhaustive();
		else for (auto& s : readScript(script, "vec")) replay(s);
	}
};

// ---------------------------------------------------------------- construction, conversion, swizzles
typedef std::vector<Ints> Parts;
static Ints L(int32 x) { return Ints{ x }; }
static Ints F(float x) { return Ints{ enc(x, 2) }; } // quarters
template<class V> Ints flanes(const V& v, int n) { Ints r; for (int i = 0; i < n; i++) r.push_back(enc(v[i], 2)); return r; }
template<class V> void ctor(const char* ty, int n, const Parts& p, const V& v) { Ev("ctor").t("ty", ty).i("n", n).aa("p", p).a("r", lanes(v)).end(); }
template<class V> void fctor(const char* ty, int n, const Parts& p, const V& v) { Ev("ctor").t("ty", ty).i("n", n).aa("p", p).a("r", flanes(v, n)).end(); }
template<class V2, class V3, class V4, class S, class F1, class FN> static void composeAll(const char* ty, Rng& r, F1 one, FN rd)
{
	auto s = [&] { return one(r); };
	S a = s(), b = s(), c = s(), d = s(); V2 ab(a, b), bc(b, c), cd(c, d); V3 abc(a, b, c), bcd(b, c, d); V4 abcd(a, b, c, d);
	auto w = [&](S x) { return rd(V2(x, x), 1); };
	auto e = [&](int n, const Parts& p, const Ints& got) { Ev("ctor").t("ty", ty).i("n", n).aa("p", p).a("r", got).end(); };
	e(2, { w(a) }, rd(V2(a), 2)); e(3, { w(a) }, rd(V3(a), 3)); e(4, { w(a) }, rd(V4(a), 4));
	e(2, { w(a), w(b) }, rd(ab, 2)); e(3, { w(a), w(b), w(c) }, rd(abc, 3)); e(4, { w(a), w(b), w(c), w(d) }, rd(abcd, 4));
	e(3, { rd(ab, 2), w(c) }, rd(V3(ab, c), 3)); e(3, { w(a), rd(bc, 2) }, rd(V3(a, bc), 3));
	e(4, { rd(ab, 2), w(c), w(d) }, rd(V4(ab, c, d), 4)); e(4, { w(a), rd(bc, 2), w(d) }, rd(V4(a, bc, d), 4));
	e(4, { w(a), w(b), rd(cd, 2) }, rd(V4(a, b, cd), 4)); e(4, { rd(ab, 2), rd(cd, 2) }, rd(V4(ab, cd), 4));
	e(4, { rd(abc, 3), w(d) }, rd(V4(abc, d), 4)); e(4, { w(a), rd(bcd, 3) }, rd(V4(a, bcd), 4));
	auto cut = [&](const char* k, const Ints& from, const Ints& got) { Ev("cut").t("ty", ty).t("k", k).a("a", from).a("r", got).end(); };
	cut("4to3", rd(abcd, 4), rd((V3)abcd, 3)); cut("4to2", rd(abcd, 4), rd((V2)abcd, 2)); cut("3to2", rd(abc, 3), rd((V2)abc, 2));
	cut("4to1", rd(abcd, 4), w((S)abcd)); cut("3to1", rd(abc, 3), w((S)abc)); cut("2to1", rd(ab, 2), w((S)ab));
	auto t = [&](int n, const Ints& from, const std::string& got) { Ev("text").t("ty", ty).i("n", n).a("a", from).t("s", got).end(); };
	t(2, rd(ab, 2), toString(ab)); t(3, rd(abc, 3), toString(abc)); t(4, rd(abcd, 4), toString(abcd));
	S o = S(0); e(2, { w(o) }, rd(V2(), 2)); e(3, { w(o) }, rd(V3(), 3)); e(4, { w(o) }, rd(V4(), 4));
	e(4, { w(abcd.x), w(abcd.y), w(abcd.z), w(abcd.w) }, rd(abcd, 4)); e(3, { w(abc.x), w(abc.y), w(abc.z) }, rd(abc, 3)); e(2, { w(ab.x), w(ab.y) }, rd(ab, 2));
}
// SIMD: registers from scalars and vectors repeat the last lane
template<class X, class V2, class V3, class V4, class S, class F1, class FN> static void composeSimd(const char* ty, Rng& r, F1 one, FN rd)
{
	S a = one(r), b = one(r), c = one(r), d = one(r);
	auto w = [&](S x) { return rd(V2(x, x), 1); };
	auto e = [&](const Parts& p, const Ints& got) { Ev("ctor").t("ty", ty).i("n", 4).aa("p", p).a("r", got).end(); };
	X abcd(a, b, c, d); alignas(16) S mem[5] = { a, b, c, d, a };
	e({ w(a), w(b), w(c), w(d) }, rd(abcd, 4)); e({ w(a) }, rd(X(a), 4)); e({ w(a), w(b), w(c) }, rd(X(a, b, c), 4));
	S n = one(r); e({ w(a), w(b), w(c), w(n) }, rd(X(abcd, n), 4)); e({ w(a), w(b), w(c), w(d) }, rd(X(V4(a, b, c, d)), 4));
	e({ w(a), w(b), w(c) }, rd(X(V3(a, b, c)), 4)); e({ w(a), w(b) }, rd(X(V2(a, b)), 4));
	e({ w(b), w(c), w(d), w(a) }, rd(X((const S*)(mem + 1)), 4));
	X m(a); m.loadAligned(mem); e({ w(a), w(b), w(c), w(d) }, rd(m, 4));
	alignas(16) S out[6] = { a, a, a, a, a, a }; X(b, c, d, a).store(out + 1); e({ w(b), w(c), w(d), w(a) }, rd(V4(out[1], out[2], out[3], out[4]), 4));
	e({ w(a), w(a) }, rd(X(V2(out[0], out[5])), 4));                      // nothing around the target was written
	X(c, d, a, b).storeAligned(out); e({ w(c), w(d), w(a), w(b) }, rd(V4(out[0], out[1], out[2], out[3]), 4));
	e({ w(d), w(c), w(b), w(a) }, [&] { X q(a); q.setX(d); q.setY(c); q.setZ(b); q.setW(a); return rd(q, 4); }());
	e({ w(a), w(b), w(c), w(c) }, [&] { X q = abcd; q.fixW(); return rd(q, 4); }());
	Ev("text").t("ty", ty).i("n", 4).a("a", rd(abcd, 4)).t("s", toString(abcd)).end();
	e({ w(S(0)) }, rd(X(), 4));
	e({ w(abcd.getX()), w(abcd.getY()), w(abcd.getZ()), w(abcd.getW()) }, rd(abcd, 4));
	auto cut = [&](const char* k, const Ints& got) { Ev("cut").t("ty", ty).t("k", k).a("a", rd(abcd, 4)).a("r", got).end(); };
	cut("x4to4", rd((V4)abcd, 4)); cut("x4to3", rd((V3)abcd, 3)); cut("x4to2", rd((V2)abcd, 2)); cut("x4to1", w((S)abcd));
	e({ w(a) }, rd(abcd.splatX(), 4)); e({ w(b) }, rd(abcd.splatY(), 4)); e({ w(c) }, rd(abcd.splatZ(), 4)); e({ w(d) }, rd(abcd.splatW(), 4));
	e({ w(a), w(b), w(c), w(d) }, [&] { X q(abcd); X p(a); p = q; return rd(p, 4); }());
}
template<class X, class FN, size_t... K> static void swizzles(const char* ty, const X& v, const Ints& a, FN rd, std::index_sequence<K...>)
{
	int dummy[] = { (Ev("swz").t("ty", ty).a("i", { (K >> 6) & 3, (K >> 4) & 3, (K >> 2) & 3, K & 3 }).a("a", a)
		.a("r", rd(v.template swizzle<(K >> 6) & 3, (K >> 4) & 3, (K >> 2) & 3, K & 3>(), 4)).end(), 0)... };
	(void)dummy;
}
static Ints bits(const u32x4& v) { return lanes(v); }
static Ints fbits(const float* f, int n) { Ints r; for (int i = 0; i < n; i++) { uint32 u; memcpy(&u, f + i, 4); r.push_back((int32)u); } return r; }
static void convert(Rng& r)
{
	auto rdi = [](const auto& v, int n) { Ints o; for (int i = 0; i < n; i++) o.push_back((int32)v[i]); return o; };
	// int <-> uint keep the bits; to float and back keep the value (24 bits), from float truncates
	uint32 w[4]; for (auto& x : w) x = anyWord(r);
	auto e = [&](const char* k, const Ints& a, const Ints& got) { Ev("conv").t("k", k).a("a", a).a("r", got).end(); };
	Ints a4 = words(w, 4), a3 = words(w, 3), a2 = words(w, 2);
	int4 i4 = mk<int4>(w); int3 i3 = mk<int3>(w); int2 i2 = mk<int2>(w); uint4 u4 = mk<uint4>(w); uint3 u3 = mk<uint3>(w); uint2 u2 = mk<uint2>(w);
	e("bits", a4, rdi((uint4)i4, 4)); e("bits", a3, rdi((uint3)i3, 3)); e("bits", a2, rdi((uint2)i2, 2));
	e("bits", a4, rdi(int4(u4), 4)); e("bits", a3, rdi(int3(u3), 3)); e("bits", a2, rdi(int2(u2), 2));
	e("bits", a3, rdi((uint3)i4, 3)); e("bits", a2, rdi((uint2)i4, 2)); e("bits", a2, rdi((uint2)i3, 2));
	e("bits", words(w, 1), L((int32)(uint32)i4)); e("bits", words(w, 1), L((int32)(uint32)i3)); e("bits", words(w, 1), L((int32)(uint32)i2));
	u32x4 ux = mk<u32x4>(w); i32x4 ix = mk<i32x4>(w);
	e("bits", a4, rdi(i32x4(ux), 4)); e("bits", a4, rdi((u32x4)ix, 4)); e("bits", a4, rdi(uintAsInt(ux), 4));
	e("bits", a4, rdi(floatAsUint(uintAsFloat(ux)), 4)); e("bits", a4, rdi(floatAsInt(intAsFloat(ix)), 4));
	{ f32x4 f = uintAsFloat(ux); float m[4]; memcpy(m, &f, 16); e("bits", a4, fbits(m, 4)); }
	// values: |x| <= 2^24 for signed; for unsigned multiples of 256 all over the range
	uint32 s[4], u[4]; for (int i = 0; i < 4; i++) { s[i] = (uint32)(r.range(0, 2) ? r.range(-16777216, 16777216) : r.range(-9, 9)); u[i] = r.coin() ? r.u32() & 0xFFFFFF00u : r.u32() >> 8; }
	auto rdf = [](const auto& v, int n) { Ints o; for (int i = 0; i < n; i++) { double x = v[i]; o.push_back(x == std::floor(x) && x >= -2147483648.0 && x < 4294967296.0 ? (int32)(uint32)(int64_t)x : 7777777); } return o; };
	auto neg = [](const auto& v, int n) { Ints o; for (int i = 0; i < n; i++) o.push_back(v[i] < 0); return o; };
	Ints s4 = words(s, 4), q4 = words(u, 4);
	int4 si = mk<int4>(s); uint4 uu = mk<uint4>(u);
	auto ef = [&](const char* k, const Ints& a, const Ints& got, const Ints& sgn) { Ev("tofloat").t("k", k).a("a", a).a("r", got).a("neg", sgn).end(); };
	#define TF(K, A, X, N) { auto x = X; ef(K, A, rdf(x, N), neg(x, N)); }
	TF("s", s4, float4(si), 4) TF("s", words(s, 3), float3(mk<int3>(s)), 3) TF("s", words(s, 2), float2(mk<int2>(s)), 2) TF("s", s4, f32x4(mk<i32x4>(s)), 4)
	TF("u", q4, float4(uu), 4) TF("u", words(u, 3), float3(mk<uint3>(u)), 3) TF("u", words(u, 2), float2(mk<uint2>(u)), 2) TF("u", q4, f32x4(mk<u32x4>(u)), 4)
	#undef TF
	// float (quarters) to integers
	float f[4], g[4]; Ints fa, ga;
	for (int i = 0; i < 4; i++) { int x = r.coin() ? r.range(-4000000, 4000000) : r.range(-9, 9); f[i] = x / 4.0f; fa.push_back(x); g[i] = std::fabs(f[i]); ga.push_back(std::abs(x)); }
	float4 ff(f[0], f[1], f[2], f[3]), gg(g[0], g[1], g[2], g[3]); float3 f3 = (float3)ff, g3 = (float3)gg; float2 f2 = (float2)ff, g2 = (float2)gg;
	auto t = [&](const Ints& a, int n, const Ints& got) { Ev("trunc").a("a", Ints(a.begin(), a.begin() + n)).a("r", got).end(); };
	t(fa, 4, rdi((int4)ff, 4)); t(fa, 3, rdi((int3)ff, 3)); t(fa, 2, rdi((int2)ff, 2)); t(fa, 3, rdi((int3)f3, 3)); t(fa, 2, rdi((int2)f3, 2)); t(fa, 2, rdi((int2)f2, 2));
	t(ga, 4, rdi((uint4)gg, 4)); t(ga, 3, rdi((uint3)gg, 3)); t(ga, 2, rdi((uint2)gg, 2)); t(ga, 3, rdi((uint3)g3, 3)); t(ga, 2, rdi((uint2)g3, 2)); t(ga, 2, rdi((uint2)g2, 2));
	t(fa, 1, L((int32)ff)); t(fa, 1, L((int32)f3)); t(fa, 1, L((int32)f2)); t(ga, 1, L((uint32)gg)); t(ga, 1, L((uint32)g3)); t(ga, 1, L((uint32)g2));
	t(fa, 4, rdi((i32x4)f32x4(ff), 4)); t(ga, 4, rdi((u32x4)f32x4(gg), 4));
	// unsigned values of the whole range through float
	float big[4]; for (int i = 0; i < 4; i++) big[i] = (float)u[i];
	e("ubig", q4, rdi((u32x4)f32x4(big[0], big[1], big[2], big[3]), 4)); e("ubig", q4, rdi((uint4)float4(big[0], big[1], big[2], big[3]), 4));
}
template<class V> static void constant(const char* ty, const char* name, const V& v, int n) { Ev("const").t("ty", ty).t("k", name).i("n", n).a("r", flanes(v, n)).end(); }
static void constants()
{
	#define K(V, N, C) constant(#V, #C, V::C, N);
	#define KU(V, N) K(V, N, zero) K(V, N, one)
	#define KI(V, N) KU(V, N) K(V, N, minusOne)
	#define KD2(V, N) K(V, N, left) K(V, N, right) K(V, N, bottom) K(V, N, top)
	#define KD3(V, N) KD2(V, N) K(V, N, back) K(V, N, front)
	KU(uint2, 2) KU(uint3, 3) KU(uint4, 4) KU(u32x4, 4)
	KI(int2, 2) KI(int3, 3) KI(int4, 4) KI(i32x4, 4) KD2(int2, 2) KD3(int3, 3)
	KI(float2, 2) KI(float3, 3) KI(float4, 4) KI(f32x4, 4) KD2(float2, 2) KD3(float3, 3) KD3(f32x4, 4)
	K(float2, 2, inf) K(float2, 2, minusInf) K(float2, 2, nan) K(float3, 3, inf) K(float3, 3, minusInf) K(float3, 3, nan)
	K(float4, 4, inf) K(float4, 4, minusInf) K(float4, 4, nan) K(f32x4, 4, inf) K(f32x4, 4, minusInf) K(f32x4, 4, nan)
}

// ---------------------------------------------------------------- ordering
// the relation over a set of values: R[i][j] = isBinaryLess(v_i, v_j), E[i][j] = same bits
template<class V> static void order(const char* ty, const std::vector<V>& vs, size_t bytes)
{
	std::vector<Ints> R, E;
	for (auto& a : vs)
	{
		Ints x, y; for (auto& b : vs) { x.push_back(isBinaryLess(a, b)); y.push_back(!memcmp(&a, &b, bytes)); }
		R.push_back(x); E.push_back(y);
	}
	Ev("order").t("ty", ty).aa("r", R).aa("e", E).end();
}
template<class V> static void orderInts(const char* ty, Rng& r)
{
	std::vector<V> vs; uint32 base[4]; for (auto& x : base) x = anyWord(r);
	for (int i = 0; i < 7; i++)
	{
		uint32 w[4]; memcpy(w, base, 16);
		for (int k = r.range(0, 2); k > 0; k--) w[r.range(0, Tr<V>::n - 1)] = anyWord(r);
		vs.push_back(mk<V>(w));
	}
	order(ty, vs, Tr<V>::n * 4);
}
template<class V, int N> static void orderFloats(const char* ty, Rng& r)
{
	std::vector<V> vs; float base[4]; for (auto& x : base) x = (float)r.range(-5, 5);
	for (int i = 0; i < 7; i++)
	{
		float w[4]; memcpy(w, base, 16);
		for (int k = r.range(0, 2); k > 0; k--) w[r.range(0, N - 1)] = r.pick({ 0.0f, -1.0f, 2.5f, -7.0f, 1e30f, 3.0f });
		V v; for (int k = 0; k < N; k++) v[k] = w[k];
		vs.push_back(v);
	}
	order(ty, vs, N * 4);
}
static void orderBoxes(Rng& r)
{
	// the order looks at the six coordinates only; unused fourth lanes differ freely
	std::vector<Ints> R, E; std::vector<Aabb> vs; std::vector<Ints> key; int base[6]; for (auto& x : base) x = r.range(-4, 4);
	for (int i = 0; i < 7; i++)
	{
		int w[6]; memcpy(w, base, sizeof w);
		for (int k = r.range(0, 2); k > 0; k--) w[r.range(0, 5)] = r.range(-4, 4);
		for (int k = 0; k < 3; k++) if (w[k] > w[k + 3]) std::swap(w[k], w[k + 3]);
		vs.push_back(Aabb(f32x4(w[0], w[1], w[2], r.range(-9, 9)), f32x4(w[3], w[4], w[5], r.range(10, 19))));
		key.push_back(Ints(w, w + 6));
	}
	for (size_t i = 0; i < vs.size(); i++)
	{
		Ints x, y; for (size_t j = 0; j < vs.size(); j++) { x.push_back(isBinaryLess(vs[i], vs[j])); y.push_back(key[i] == key[j]); }
		R.push_back(x); E.push_back(y);
	}
	Ev("order").t("ty", "Aabb").aa("r", R).aa("e", E).end();
}
static void orderMore(Rng& r)
{
	std::vector<f32x4x4> ms; float base[16]; for (auto& x : base) x = (float)r.range(-3, 3);
	for (int i = 0; i < 7; i++)
	{
		float w[16]; memcpy(w, base, sizeof w);
		for (int k = r.range(0, 2); k > 0; k--) w[r.range(0, 15)] = (float)r.range(-3, 3);
		ms.push_back(f32x4x4(f32x4(w[0], w[1], w[2], w[3]), f32x4(w[4], w[5], w[6], w[7]), f32x4(w[8], w[9], w[10], w[11]), f32x4(w[12], w[13], w[14], w[15])));
	}
	order("f32x4x4", ms, 64);
	std::vector<Color> cs; uint32 c = r.u32();
	for (int i = 0; i < 7; i++)
	{
		uint32 w = c; for (int k = r.range(0, 2); k > 0; k--) w ^= (uint32)r.range(0, 255) << (8 * r.range(0, 3));
		cs.push_back(Color(w));
	}
	order("Color", cs, 4);
}

// ---------------------------------------------------------------- ordered containers
template<class V> static Ints keyOf(const V& v, int words) { Ints o; uint32 w[16]; memcpy(w, &v, words * 4); for (int i = 0; i < words; i++) o.push_back((int32)w[i]); return o; }
static Ints boxKey(const Aabb& b) { Ints o = keyOf(b.getMin(), 3); for (int x : keyOf(b.getMax(), 3)) o.push_back(x); return o; }
template<class V, class Make, class Key> static void history(const char* ty, Rng& r, int steps, Make make, Key key)
{
	struct Less { bool operator()(const V& a, const V& b) const { return isBinaryLess(a, b); } };
	std::map<V, int, Less> m; std::vector<V> pool;
	for (int i = r.range(2, 9); i > 0; i--) pool.push_back(make());
	Ev("key").t("ty", ty).t("f", "new").i("size", (long)m.size()).end();
	auto list = [&] { std::vector<Ints> ks; Ints vs; for (auto& e : m) { ks.push_back(key(e.first)); vs.push_back(e.second); }
		Ev("key").t("ty", ty).t("f", "list").aa("ks", ks).a("vs", vs).i("size", (long)m.size()).end(); };
	for (int s = 0; s < steps; s++)
	{
		const V& k = pool[(size_t)r.range(0, (int)pool.size() - 1)]; int x = r.range(0, 9), v = r.range(0, 99);
		if (x < 5)
		{
			auto it = m.find(k); int fresh;
			if (it == m.end()) fresh = m.emplace(k, v).second; else { fresh = 0; it->second = v; }
			Ev("key").t("ty", ty).t("f", "put").a("k", key(k)).i("v", v).i("c", fresh).i("size", (long)m.size()).end();
		}
		else if (x < 7) { auto it = m.find(k); Ev("key").t("ty", ty).t("f", "get").a("k", key(k)).i("v", it == m.end() ? -1 : it->second).i("c", (long)m.count(k)).i("size", (long)m.size()).end(); }
		else if (x < 9) { int c = (int)m.erase(k); Ev("key").t("ty", ty).t("f", "drop").a("k", key(k)).i("c", c).i("size", (long)m.size()).end(); }
		else list();
	}
	list();
}
template<class V, int N> static void historyWords(const char* ty, Rng& r, int steps)
{
	uint32 base[4]; for (auto& x : base) x = anyWord(r);
	history<V>(ty, r, steps, [&] { uint32 w[4]; memcpy(w, base, 16); for (int k = r.range(0, 2); k > 0; k--) w[r.range(0, N - 1)] = anyWord(r); return mk<V>(w); }, [](const V& v) { return keyOf(v, N); });
}
template<class V, int N> static void historyFloats(const char* ty, Rng& r, int steps)
{
	float base[4]; for (auto& x : base) x = (float)r.range(-5, 5);
	history<V>(ty, r, steps, [&] { V v; for (int k = 0; k < N; k++) v[k] = base[k]; for (int k = r.range(0, 2); k > 0; k--) v[r.range(0, N - 1)] = r.pick({ 0.0f, -0.0f, 2.5f, -7.0f, 1e30f, 3.0f }); return v; },
		[](const V& v) { return keyOf(v, N); });
}
static void histories(Rng& r, int steps)
{
	historyWords<int2, 2>("int2", r, steps); historyWords<int3, 3>("int3", r, steps); historyWords<int4, 4>("int4", r, steps); historyWords<i32x4, 4>("i32x4", r, steps);
	historyWords<uint2, 2>("uint2", r, steps); historyWords<uint3, 3>("uint3", r, steps); historyWords<uint4, 4>("uint4", r, steps); historyWords<u32x4, 4>("u32x4", r, steps);
	historyFloats<float2, 2>("float2", r, steps); historyFloats<float3, 3>("float3", r, steps); historyFloats<float4, 4>("float4", r, steps); historyFloats<f32x4, 4>("f32x4", r, steps);
	float q[16]; for (auto& x : q) x = (float)r.range(-3, 3);
	history<f32x4x4>("f32x4x4", r, steps, [&] { float w[16]; memcpy(w, q, sizeof w); for (int k = r.range(0, 2); k > 0; k--) w[r.range(0, 15)] = (float)r.range(-3, 3);
		return f32x4x4(f32x4(w[0], w[1], w[2], w[3]), f32x4(w[4], w[5], w[6], w[7]), f32x4(w[8], w[9], w[10], w[11]), f32x4(w[12], w[13], w[14], w[15])); }, [](const f32x4x4& v) { return keyOf(v, 16); });
	uint32 c = r.u32(); history<Color>("Color", r, steps, [&] { uint32 w = c; for (int k = r.range(0, 2); k > 0; k--) w ^= (uint32)r.range(0, 255) << (8 * r.range(0, 3)); return Color(w); }, [](const Color& v) { return keyOf(v, 1); });
	int b[6]; for (auto& x : b) x = r.range(1, 4);
	history<Aabb>("Aabb", r, steps, [&] { int w[6]; memcpy(w, b, sizeof w); for (int k = r.range(0, 2); k > 0; k--) w[r.range(0, 5)] = r.range(1, 4); for (int k = 0; k < 3; k++) if (w[k] > w[k + 3]) std::swap(w[k], w[k + 3]);
		return Aabb(f32x4(w[0], w[1], w[2], r.range(-9, 9)), f32x4(w[3], w[4], w[5], r.range(10, 19))); }, boxKey);
}

int main(int argc, char** argv)
{
	Args g = init(argc, argv); Rng r(g.seed);
	std::string mode = g.mode, fam = mode.substr(0, 4), what = mode.size() > 4 ? mode.substr(4) : "";
	if (fam == "scal")
	{
		Machine<int2>().go(what, r, g.thorough, g.script); Machine<int3>().go(what, r, g.thorough, g.script); Machine<int4>().go(what, r, g.thorough, g.script);
		Machine<uint2>().go(what, r, g.thorough, g.script); Machine<uint3>().go(what, r, g.thorough, g.script); Machine<uint4>().go(what, r, g.thorough, g.script);
	}
	else if (fam == "simd") { Machine<i32x4>().go(what, r, g.thorough, g.script); Machine<u32x4>().go(what, r, g.thorough, g.script); }
	else if (mode == "make")
	{
		auto rdi = [](const auto& v, int n) { Ints o; for (int i = 0; i < n; i++) o.push_back((int32)v[i]); return o; };
		auto rdf = [](const auto& v, int n) { return flanes(v, n); };
		auto oi = [](Rng& q) { return (int32)anyWord(q); }; auto ou = [](Rng& q) { return anyWord(q); }; auto of = [](Rng& q) { return q.range(-4000, 4000) / 4.0f; };
		rec.open(); constants();
		for (int k = 0; k < (g.thorough ? 400 : 25); k++)
		{
			rec.episode();
			composeAll<int2, int3, int4, int32>("int", r, oi, rdi); composeAll<uint2, uint3, uint4, uint32>("uint", r, ou, rdi);
			composeAll<float2, float3, float4, float>("float", r, of, rdf);
			composeSimd<i32x4, int2, int3, int4, int32>("i32x4", r, oi, rdi); composeSimd<u32x4, uint2, uint3, uint4, uint32>("u32x4", r, ou, rdi);
			composeSimd<f32x4, float2, float3, float4, float>("f32x4", r, of, rdf);
			for (int j = 0; j < 4; j++) convert(r);
			if (k % 25 == 0)
			{
				uint32 w[4] = { 11, 22, 33, 44 }; auto s = std::make_index_sequence<256>();
				swizzles("i32x4", mk<i32x4>(w), words(w, 4), rdi, s); swizzles("u32x4", mk<u32x4>(w), words(w, 4), rdi, s);
				swizzles("f32x4", f32x4(11, 22, 33, 44), words(w, 4), rdi, s);
			}
		}
	}
	else if (mode == "order")
	{
		for (int k = 0; k < (g.thorough ? 3000 : 180); k++)
		{
			rec.episode();
			orderInts<int2>("int2", r); orderInts<int3>("int3", r); orderInts<int4>("int4", r); orderInts<uint2>("uint2", r); orderInts<uint3>("uint3", r); orderInts<uint4>("uint4", r);
			orderInts<i32x4>("i32x4", r); orderInts<u32x4>("u32x4", r);
			orderFloats<float2, 2>("float2", r); orderFloats<float3, 3>("float3", r); orderFloats<float4, 4>("float4", r); orderFloats<f32x4, 4>("f32x4", r); orderBoxes(r); orderMore(r);
			if (k % (g.thorough ? 3 : 9) == 0) histories(r, 14);
		}
	}
	else { fprintf(stderr, "unknown mode\n"); return 3; }
	return 0;
}
