// Matrices: operations of float2x2, float3x3, float4x3, float4x4 and f32x4x4 as events of the matrix register machine
// (spec/MatMachine.tla). A matrix is recorded as the list of its columns in units of 1/16; operands are multiples of 1/4.
#include "h.hpp"
#include "math/matrix.hpp"
#include "math/simd/matrix/float.hpp"
using namespace math;
using namespace h;
typedef std::vector<Ints> Cols;

template<class T> struct Mt;
template<> struct Mt<float2x2> { typedef float2 Col; typedef float2 Row; enum { cols = 2, rows = 2, left = 1, square = 1, simd = 0 }; static const char* name() { return "float2x2"; } };
template<> struct Mt<float3x3> { typedef float3 Col; typedef float3 Row; enum { cols = 3, rows = 3, left = 1, square = 1, simd = 0 }; static const char* name() { return "float3x3"; } };
template<> struct Mt<float4x3> { typedef float3 Col; typedef float4 Row; enum { cols = 4, rows = 3, left = 0, square = 0, simd = 0 }; static const char* name() { return "float4x3"; } };
template<> struct Mt<float4x4> { typedef float4 Col; typedef float4 Row; enum { cols = 4, rows = 4, left = 1, square = 1, simd = 0 }; static const char* name() { return "float4x4"; } };
template<> struct Mt<f32x4x4> { typedef f32x4 Col; typedef f32x4 Row; enum { cols = 4, rows = 4, left = 0, square = 1, simd = 1 }; static const char* name() { return "f32x4x4"; } };

static float2 mk(const float* a, float2*) { return float2(a[0], a[1]); }
static float3 mk(const float* a, float3*) { return float3(a[0], a[1], a[2]); }
static float4 mk(const float* a, float4*) { return float4(a[0], a[1], a[2], a[3]); }
static f32x4 mk(const float* a, f32x4*) { return f32x4(a[0], a[1], a[2], a[3]); }
static float2x2 byRows(const float* p, float2x2*) { return float2x2(p[0], p[1], p[2], p[3]); }
static float3x3 byRows(const float* p, float3x3*) { return float3x3(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]); }
static float4x3 byRows(const float* p, float4x3*) { return float4x3(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11]); }
static float4x4 byRows(const float* p, float4x4*) { return float4x4(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]); }
static f32x4x4 byRows(const float* p, f32x4x4*) { return f32x4x4(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]); }
template<class C> float2x2 byCols(C f, float2x2*) { return float2x2(f(0), f(1)); }
template<class C> float3x3 byCols(C f, float3x3*) { return float3x3(f(0), f(1), f(2)); }
template<class C> float4x3 byCols(C f, float4x3*) { return float4x3(f(0), f(1), f(2), f(3)); }
template<class C> float4x4 byCols(C f, float4x4*) { return float4x4(f(0), f(1), f(2), f(3)); }
template<class C> f32x4x4 byCols(C f, f32x4x4*) { return f32x4x4(f(0), f(1), f(2), f(3)); }

// The unit of an episode is a power of two: no law of matrices knows how large the numbers are.
static int K = 0; static float S = 1.0f;
static void unit(int k) { K = k; S = std::ldexp(1.0f, k); }
static void unit(Rng& r) { unit(r.coin() ? 0 : r.pick({ -40, -26, -20, -12, -6, 8, 14, 20, 36 })); }
static int factor(Rng& r) { return r.coin() ? 0 : r.pick({ -30, -14, 9, 17 }); }
static long long e4(double v, int k = K) { return enc(v, 4 - k); }
template<class T> Cols rd(const T& m, int u = K, bool div = false, int cols = Mt<T>::cols, int rows = Mt<T>::rows)
{
	Cols r; const typename Mt<T>::Col* c = &m.c0;
	for (int i = 0; i < cols; i++) { Ints x; for (int k = 0; k < rows; k++) x.push_back(div ? encr(c[i][k], std::ldexp(4096, -u)) : e4(c[i][k], u)); r.push_back(x); }
	return r;
}
static Ints rv(const float* a, int n, int u = K) { Ints r; for (int i = 0; i < n; i++) r.push_back(e4(a[i], u)); return r; }
template<class V> Ints rvv(const V& v, int n, int u = K) { Ints r; for (int i = 0; i < n; i++) r.push_back(e4(v[i], u)); return r; }
static float q(Rng& r) { return r.range(-24, 24) / 4.0f * S; }

template<class T> struct Machine
{
	typedef Mt<T> M; typedef typename M::Col Col; typedef typename M::Row Row; enum { C = M::cols, R = M::rows };
	template<int N> using I = std::integral_constant<int, N>;
	T m;
	static T make(const float* p) { return byRows(p, (T*)0); }
	void load(const float* p)
	{
		m = make(p);
		T n = byCols([&](int c) { float a[4] = {}; for (int k = 0; k < R; k++) a[k] = p[k * C + c]; return mk(a, (Col*)0); }, (T*)0);
		float mem[16]; memcpy(mem, &m, sizeof(float) * C * R);
		Ev("mload").t("ty", M::name()).i("rows", R).i("cols", C).a("p", rv(p, C * R)).aa("r", rd(m)).aa("c", rd(n)).a("d", rv(mem, C * R)).end();
	}
	void fresh(Rng& r) { unit(r); float p[16]; for (auto& x : p) x = r.range(0, 3) ? q(r) : r.range(-1, 1) * S; load(p); }
	bool onLattice() { const Col* c = &m.c0; for (int i = 0; i < C; i++) for (int k = 0; k < R; k++) { float x = c[i][k] * 4 / S; if (!(std::fabs(x) <= 400) || x != std::floor(x)) return false; } return true; }
	static Cols left(char f, float n, const T& m, int u, I<1>)
	{
		switch (f) { case '+': return rd(n + m, u); case '-': return rd(n - m, u); case '*': return rd(n * m, u); default: return rd(n / m, -u, true); }
	}
	static Cols left(char, float, const T&, int, I<0>) { return Cols(); }
	// the operand of every k-th operation in place is the register itself, or the returned element of it
	int own(unsigned k, int n) { return ++turn % k ? -1 : (int)(turn / k % n); }
	template<class V> static const float* element(const V& v, int i) { return (const float*)&v + i; }
	unsigned turn = 0;
	// the number has a unit of its own when it is a factor; what is kept stays in the unit of the register
	void scal(char f, float n, bool keep, int kf)
	{
		bool linear = f == '+' || f == '-'; int kn = linear ? K : keep && f == '*' ? 0 : kf; n = std::ldexp(n, kn - K);
		T ms, cs = m; T* ref = 0;
		// now and then the operand is an element of the matrix itself
		const Col* el = &cs.c0; int at = own(5, C * R); float one = n; const float* a = &one;
		if (at >= 0) { a = element(el[at / R], at % R); n = *a; if (f == '/' && n == 0) { a = &one; n = one; } else { keep = false; kn = K; } }
		switch (f)
		{
		case '+': ms = m + n; ref = &(cs += *a); break;
		case '-': ms = m - n; ref = &(cs -= *a); break;
		case '*': ms = m * n; ref = &(cs *= *a); break;
		default: ms = m / n; ref = &(cs /= *a); break;
		}
		bool d = f == '/'; int u = linear ? K : d ? K - kn : K + kn; if (d) keep = false;
		Ev("mscal").t("f", std::string(1, f)).i("k", e4(n, kn)).aa("ms", rd(ms, u, d)).aa("cs", rd(cs, u, d)).aa("sm", left(f, n, m, u, I<!M::simd>())).b("refs", ref == &cs).i("keep", keep).end();
		if (keep) m = cs;
	}
	void mul(const float* p, bool keep, int kf, I<1>)
	{
		bool self = own(6, 1) >= 0; int kb = self ? K : keep ? 0 : kf; T b = self ? m : in(p, kb), r = m * b, c = m; T& ref = c *= self ? c : b; keep &= !self;
		Ev("mmul").aa("b", rd(b, kb)).aa("r", rd(r, K + kb)).aa("c", rd(c, K + kb)).b("refs", &ref == &c).i("keep", keep).end();
		if (keep) m = c;
	}
	void mul(const float*, bool, int, I<0>) { }
	static T in(const float* p, int k) { float z[16]; for (int i = 0; i < C * R; i++) z[i] = std::ldexp(p[i], k - K); return make(z); }
	static Ints vm(const float* w, const T& m, int u, I<1>) { return rvv(mk(w, (Col*)0) * m, C, u); }
	static Ints vm(const float*, const T&, int, I<0>) { return Ints(); }
	void vec(const float* x, int k)
	{
		float v[4]; for (int i = 0; i < 4; i++) v[i] = std::ldexp(x[i], k - K);
		Ev("mvec").a("v", rv(v, C, k)).a("r", rvv(m * mk(v, (Row*)0), R, K + k)).a("w", rv(v, R, k)).a("vr", vm(v, m, K + k, I<M::left>())).end();
	}
	void set(int i, const float* v)
	{
		m[i] = mk(v, (Col*)0); const T& cm = m; bool same = true; for (int c = 0; c < C; c++) { Col a = cm[c], b = (&m.c0)[c]; for (int k = 0; k < R; k++) same &= a[k] == b[k]; }
		Ev("mcol").i("i", i + 1).a("v", rv(v, R)).aa("r", same ? rd(m) : Cols()).end();
	}
	static float2x2 tr(const float2x2& a) { return transpose(a); }
	static float3x3 tr(const float3x3& a) { return transpose(a); }
	static float4x4 tr(const float4x4& a) { return transpose(a); }
	static f32x4x4 tr(const f32x4x4& a) { return transpose4x4(a); }
	void transp(I<1>) { Ev("mtr").aa("r", rd(tr(m))).end(); }
	void transp(I<0>) { }
	void eq(Rng& r)
	{
		T b = m; if (r.coin()) { Col* c = &b.c0; int i = r.range(0, C - 1), k = r.range(0, R - 1); float x = c[i][k]; c[i][k] = x == 0 ? S : -x; }
		// -0 and +0 are one value here
		Col* c = &b.c0; Col* d = &m.c0; for (int i = 0; i < C; i++) for (int k = 0; k < R; k++) { for (Col* z : { c, d }) { float x = z[i][k]; if (x == 0 && r.coin()) z[i][k] = -x; } }
		Ev("meq").aa("b", rd(b)).b("eq", m == b).b("ne", m != b).end();
	}
	void three(const float* p, const float* w, int k, I<1>)
	{
		float v[4]; for (int i = 0; i < 4; i++) v[i] = std::ldexp(w[i], k - K);
		T b = in(p, k), r = multiply3x3(m, b), t = transpose3x3(m); f32x4 x = multiply3x3(m, mk(v, (f32x4*)0));
		Ev("m33").aa("b", rd(b, k)).a("v", rv(v, 3, k)).aa("r", rd(r, K + k, false, 3, 3)).a("rv", rvv(x, 3, K + k)).aa("t", rd(t, K, false, 3, 3)).a("tw", Ints{ e4(t.c0.getW()), e4(t.c1.getW()), e4(t.c2.getW()) }).a("c3", rvv(t.c3, 4)).end();
	}
	void three(const float*, const float*, int, I<0>) { }
	void random(Rng& r, int steps)
	{
		rec.episode(); fresh(r);
		for (int s = 0; s < steps; s++)
		{
			if (rec.events >= rec.perFile) rec.open(), fresh(r);
			if (!onLattice()) fresh(r);
			float p[16], v[4]; for (auto& x : p) x = r.range(0, 3) ? q(r) : r.range(-1, 1) * S; for (auto& x : v) x = q(r);
			int z = r.range(0, 15); if (z < 4) v[z] = 0;
			step(r.range(0, 11), p, v, r);
		}
	}
	void step(int op, const float* p, const float* v, Rng& r)
	{
		switch (op)
		{
		case 0: case 1: mul(p, r.coin(), factor(r), I<M::square>()); break;
		case 2: vec(v, factor(r)); break;
		case 3: set(r.range(0, C - 1), v); break;
		case 4: transp(I<M::square>()); break;
		case 5: eq(r); break;
		case 6: three(p, v, factor(r), I<M::simd>()); break;
		case 7: load(p); break;
		default: scal("+-*/"[op - 8], op == 11 && v[0] == 0 ? 2.0f * S : v[0], r.coin(), factor(r));
		}
	}
	void replay(const std::vector<int>& s, Rng& r)
	{
		rec.episode(); unit(r);
		for (size_t k = 0; k + 2 < s.size(); k += 3)
		{
			float p[16], v[4]; for (int i = 0; i < 16; i++) p[i] = ((s[k + 1] + 1) * (i + 3) + s[k + 2] * (i % 5)) % 23 / 4.0f * S - 3 * S;
			for (int i = 0; i < 4; i++) v[i] = (s[k + 2] * (i + 2) + s[k + 1]) % 19 / 4.0f * S - 2 * S;
			if (k == 0 || !onLattice()) load(p); else step(s[k] < 4 ? 8 + s[k] : s[k] - 4, p, v, r);
		}
	}
	static float2x2 inv(const float2x2& a) { return inverse(a); }
	static float3x3 inv(const float3x3& a) { return inverse(a); }
	static float4x4 inv(const float4x4& a) { return inverse(a); }
	static f32x4x4 inv(const f32x4x4& a) { return inverse4x4(a); }
	void invs(Rng& r, int n)
	{
		rec.episode(); unit(0);
		for (int k = 0; k < n; k++)
		{
			if (rec.events >= rec.perFile) rec.open();
			// small integers; half of the matrices are products of elementary ones, so that their determinant is a unit
			double a[4][4]; int lim = r.range(1, 4);
			if (r.coin()) for (auto& c : a) for (auto& x : c) x = r.range(-lim, lim);
			else
			{
				for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a[i][j] = i == j;
				for (int t = r.range(2, 7); t > 0; t--)
				{
					int i = r.range(0, C - 1), j = r.range(0, C - 1);
					if (i == j) { for (auto& x : a[i]) x = -x; continue; }
					if (r.range(0, 3) == 0) for (int c = 0; c < 4; c++) std::swap(a[i][c], a[j][c]);
					else { int s = r.range(-1, 1); bool ok = true; for (int c = 0; c < 4; c++) ok &= std::fabs(a[i][c] + s * a[j][c]) <= 5; if (ok) for (int c = 0; c < 4; c++) a[i][c] += s * a[j][c]; }
				}
			}
			double b[4][4], det = 1; memcpy(b, a, sizeof a);
			for (int i = 0; i < C; i++) { int p = i; for (int j = i; j < C; j++) if (std::fabs(b[j][i]) > std::fabs(b[p][i])) p = j; if (std::fabs(b[p][i]) < 1e-6) { det = 0; break; }
				if (p != i) std::swap(b[p], b[i]); det *= b[i][i]; for (int j = i + 1; j < C; j++) { double f = b[j][i] / b[i][i]; for (int c = i; c < C; c++) b[j][c] -= f * b[i][c]; } }
			if (det == 0) continue;
			float p[16]; for (int i = 0; i < C; i++) for (int j = 0; j < C; j++) p[i * C + j] = (float)a[i][j];
			load(p); Ev("minv").aa("r", rd(inv(m), K, true)).end();
			// the same matrix in another unit of length: exact, so only the unit of the inverse may change
			int e = (r.coin() ? 1 : -1) * r.range(6, C == 4 ? 20 : 30); float q[16]; for (int i = 0; i < C * C; i++) q[i] = std::ldexp(p[i], e);
			T u = inv(make(q)); Col* c = &u.c0; for (int i = 0; i < C; i++) for (int k = 0; k < R; k++) { float x = c[i][k]; c[i][k] = std::ldexp(x, e); }
			Ev("minv").aa("r", rd(u, K, true)).end();
		}
	}
};
static Cols cl(std::initializer_list<Ints> l) { return Cols(l); }
template<class A, class B> void cut(const A& a) { B b = (B)a; Ev("mshape").t("k", "cut").aa("a", rd(a)).i("cols", Mt<B>::cols).i("rows", Mt<B>::rows).aa("r", rd(b)).end(); }
template<class A, class B> void same(const A& a, const B& b) { Ev("mshape").t("k", "same").aa("a", rd(a)).aa("r", rd(b)).end(); }
template<class A> void konst(Rng& r)
{
	auto fill = [](const A& a, float n, int u = 0) { Ev("mshape").t("k", "fill").i("n", e4(n, u)).i("cols", Mt<A>::cols).i("rows", Mt<A>::rows).aa("r", rd(a, u)).end(); };
	float n = q(r); fill(A(n), n, K); fill(A::zero, 0); fill(A::one, 1); fill(A::minusOne, -1);
	Ev("mshape").t("k", "identity").i("cols", Mt<A>::cols).i("rows", Mt<A>::rows).aa("r", rd(A::identity, 0)).end();
}
// a scalar matrix may lie at any address its floats may
__attribute__((noinline)) static f32x4x4 widen(const float4x4& m) { return f32x4x4(m); }
static void anywhere(const float4x4& d)
{
	alignas(16) char room[sizeof(float4x4) + 16];
	for (int o = 0; o < 16; o += sizeof(float)) { auto m = new (room + o) float4x4(d); same(*m, widen(*m)); }
}
static void shapes(Rng& r)
{
	rec.episode(); unit(r); float p[16], c[4], w[4]; for (auto& x : p) x = q(r); for (auto& x : c) x = q(r); for (auto& x : w) x = q(r);
	float3x3 a = Machine<float3x3>::make(p); float4x3 b = Machine<float4x3>::make(p); float4x4 d = Machine<float4x4>::make(p); f32x4x4 s = Machine<f32x4x4>::make(p);
	float4 fc = mk(c, (float4*)0), fw = mk(w, (float4*)0); f32x4 sc = mk(c, (f32x4*)0), sw = mk(w, (f32x4*)0); Ints z{ 0, 0, 0, 0 }, ci = rv(c, 4), wi = rv(w, 4);
	#define G43(X, W) Ev("mshape").t("k", "grow43").aa("a", rd(b)).a("r3", W).aa("r", rd(X)).end();
	#define G33(X, K, W) Ev("mshape").t("k", "grow33").aa("a", rd(a)).a("c3", K).a("r3", W).aa("r", rd(X)).end();
	G43(float4x4(b, fw), wi) G43(float4x4(b), z) G43(f32x4x4(b, sw), wi) G43(f32x4x4(b), z)
	G33(float4x4(a, fc, fw), ci, wi) G33(float4x4(a, fc), ci, z) G33(float4x4(a), z, z) G33(f32x4x4(a, sc, sw), ci, wi) G33(f32x4x4(a, sc), ci, z) G33(f32x4x4(a), z, z)
	cut<float3x3, float2x2>(a); cut<float4x3, float2x2>(b); cut<float4x3, float3x3>(b);
	cut<float4x4, float4x3>(d); cut<float4x4, float3x3>(d); cut<float4x4, float2x2>(d);
	cut<f32x4x4, float4x4>(s); cut<f32x4x4, float4x3>(s); cut<f32x4x4, float3x3>(s); cut<f32x4x4, float2x2>(s);
	same(d, f32x4x4(d)); same(s, (float4x4)s); anywhere(d);
	Ev("mshape").t("k", "three").aa("a", rd(s)).aa("r", rd(f32x4x4(s.c0, s.c1, s.c2))).end();
	konst<float2x2>(r); konst<float3x3>(r); konst<float4x3>(r); konst<float4x4>(r); konst<f32x4x4>(r);
}
template<class T> void go(const std::string& mode, Rng& r, bool th, const char* script)
{
	Machine<T> k;
	if (mode == "random") k.random(r, th ? 20000 : 1500);
	else for (auto& s : readScript(script, "vec")) k.replay(s, r);
}
int main(int argc, char** argv)
{
	Args g = init(argc, argv); Rng r(g.seed);
	if (g.mode == "random" || g.mode == "replay")
	{
		go<float2x2>(g.mode, r, g.thorough, g.script); go<float3x3>(g.mode, r, g.thorough, g.script); go<float4x3>(g.mode, r, g.thorough, g.script);
		go<float4x4>(g.mode, r, g.thorough, g.script); go<f32x4x4>(g.mode, r, g.thorough, g.script);
	}
	else if (g.mode == "inverse")
	{
		int n = g.thorough ? 6000 : 500;
		Machine<float2x2>().invs(r, n); Machine<float3x3>().invs(r, n); Machine<float4x4>().invs(r, n); Machine<f32x4x4>().invs(r, n);
	}
	else for (int k = g.thorough ? 1000 : 60; k > 0; k--) shapes(r);
	return 0;
}
