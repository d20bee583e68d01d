// Float vectors: operations of float2..4 and f32x4 as events of the lattice register machine (spec/VecFloat.tla).
// Values are recorded in 1/16; operands are multiples of 1/4, so that single precision is exact on them.
#include "h.hpp"
#include "math/vector.hpp"
#include "math/simd/vector/float.hpp"
using namespace math;
using namespace h;

template<class V> struct Tr;
template<> struct Tr<float2> { typedef uint2 Mask; enum { n = 2, simd = 0 }; static const char* name() { return "float2"; } };
template<> struct Tr<float3> { typedef uint3 Mask; enum { n = 3, simd = 0 }; static const char* name() { return "float3"; } };
template<> struct Tr<float4> { typedef uint4 Mask; enum { n = 4, simd = 0 }; static const char* name() { return "float4"; } };
template<> struct Tr<f32x4> { typedef u32x4 Mask; enum { n = 4, simd = 1 }; static const char* name() { return "f32x4"; } };
typedef std::true_type Yes; typedef std::false_type No;

static float2 mk(const float* a, float2*) { return float2(a[0], a[1]); }
static float3 mk(const float* a, float3*) { return float3(a[0], a[1], a[2]); }
static float4 mk(const float* a, float4*) { return float4(a[0], a[1], a[2], a[3]); }
static f32x4 mk(const float* a, f32x4*) { return f32x4(a[0], a[1], a[2], a[3]); }
static uint2 mkm(const uint32* a, uint2*) { return uint2(a[0], a[1]); }
static uint3 mkm(const uint32* a, uint3*) { return uint3(a[0], a[1], a[2]); }
static uint4 mkm(const uint32* a, uint4*) { return uint4(a[0], a[1], a[2], a[3]); }
static u32x4 mkm(const uint32* a, u32x4*) { return u32x4(a[0], a[1], a[2], a[3]); }
// The unit of an episode is a power of two: no law of vectors knows how large the numbers are.
static int K = 0; static float S = 1.0f;
static void unit(int k) { K = k; S = std::ldexp(1.0f, k); }
static void unit(Rng& r) { unit(r.coin() ? 0 : r.pick({ -40, -26, -20, -12, -6, 8, 14, 20, 36 })); }
static Ints raw(const float* a, int n, int scale = 4 - K) { Ints r; for (int i = 0; i < n; i++) r.push_back(enc(a[i], scale)); return r; }
template<class V> Ints lanes(const V& v, int scale = 4 - K, int n = Tr<V>::n) { Ints r; for (int i = 0; i < n; i++) r.push_back(enc(v[i], scale)); return r; }
template<class V> Ints lanesr(const V& v, double unit, int n = Tr<V>::n) { Ints r; for (int i = 0; i < n; i++) r.push_back(encr(v[i], unit)); return r; }
template<class M> Ints ml(const M& m, int n) { Ints r; for (int i = 0; i < n; i++) r.push_back((int32)m[i]); return r; }
// bit patterns, all NaN alike, zeros alike
static Ints bits(const float* f, int n) { Ints r; for (int i = 0; i < n; i++) { int32 u; float x = f[i] + 0.0f; memcpy(&u, &x, 4); r.push_back(std::isnan(x) ? NaN : u); } return r; }
template<class V> Ints bitsv(const V& v) { float f[4]; for (int i = 0; i < Tr<V>::n; i++) f[i] = v[i]; return bits(f, Tr<V>::n); }

static float q(Rng& r, int lim = 64) { return r.range(-lim, lim) / 4.0f * S; }
static float special(Rng& r) { return r.pick({ 0.0f, 1.0f, -1.0f, INFINITY, -INFINITY, NAN, 2.5f, -0.25f }) * S; }

template<class V> struct Machine
{
	typedef typename Tr<V>::Mask M; enum { N = Tr<V>::n }; typedef std::integral_constant<bool, (bool)Tr<V>::simd> Simd;
	V acc = V(0.0f);
	unsigned turn = 0;
	static V make(const float* a) { return mk(a, (V*)0); }
	void load(const float* a) { acc = make(a); Ev("fload").t("ty", Tr<V>::name()).i("n", N).a("a", raw(a, N)).a("r", lanes(acc)).end(); }
	void fresh(Rng& r) { unit(r); float a[4]; for (auto& x : a) x = q(r); load(a); }
	bool onLattice() { for (int i = 0; i < N; i++) { float x = acc[i] * 4 / S; if (!(std::fabs(x) <= 256) || x != std::floor(x)) return false; } return true; }

	void bin(char f, const float* bw, float n, int keep)
	{
		// the operand of every fifth operation in place is the register itself, or one of its lanes
		bool own = ++turn % 5 == 0, linear = f == '+' || f == '-'; int at = (int)(turn / 5 % N), Kb = K; float self[4];
		// a factor may have a unit of its own; what is kept stays in the unit of the register
		if (own) { for (int i = 0; i < N; i++) self[i] = acc[i]; n = acc[at]; keep = 0; }
		else { Kb = linear || (!(keep && f == '*') && turn % 2) ? K : 0; for (int i = 0; i < N; i++) self[i] = std::ldexp(bw[i], Kb - K); n = std::ldexp(n, Kb - K); }
		V b = make(self), vv = acc, cv = acc, vs = acc, cs = acc, sv = acc; V* ref = 0; V* refs = 0;
		#define B(C, O) case C: vv = acc O b; ref = &(cv O##= own ? cv : b); vs = acc O n; refs = &(cs O##= own ? cs[at] : n); sv = n O acc; break;
		switch (f) { B('+', +) B('-', -) B('*', *) B('/', /) }
		#undef B
		int Kr = linear ? K : f == '*' ? K + Kb : K - Kb;
		auto out = [&](const V& v, int k) { return f == '/' ? lanesr(v, std::ldexp(4096, -k)) : lanes(v, 4 - k); };
		Ev("fop").t("f", std::string(1, f)).a("b", raw(self, N, 4 - Kb)).i("k", enc(n, 4 - Kb)).a("vv", out(vv, Kr)).a("cv", out(cv, Kr)).a("vs", out(vs, Kr)).a("cs", out(cs, Kr)).a("sv", out(sv, f == '/' ? -Kr : Kr))
			.b("refs", ref == &cv && refs == &cs).i("keep", f == '/' ? 0 : keep).end();
		if (f != '/') acc = keep == 1 ? cv : keep == 2 ? cs : acc;
	}
	void set(int i, float v) { acc[i] = v; const V& c = acc; Ev("fset").i("i", i + 1).i("v", enc(v, 4 - K)).a("r", lanes(c)).end(); }
	void fill(float v) { acc = v; Ev("ffill").i("v", enc(v, 4 - K)).a("r", lanes(acc)).end(); }
	std::vector<float> lanesOf(float by = 1.0f) { std::vector<float> a; for (int i = 0; i < 4; i++) a.push_back(i < N ? acc[i] * by : 0.0f); return a; }
	V plain() { return make(lanesOf(1.0f / S).data()); }
	void un()
	{
		Ev("fun").a("neg", lanes(-acc)).a("abs", lanes(abs(acc))).a("sign", lanes(sign(acc), 4)).i("bits", signBits(acc))
			.a("round", lanes(round(plain()), 4)).a("floor", lanes(floor(plain()), 4)).a("ceil", lanes(ceil(plain()), 4)).a("trunc", lanes(trunc(plain()), 4)).end();
		if (!Tr<V>::simd) Ev("fhalf").a("round", lanes(round(plain()), 4)).end();
		// a number of large unit is whole; one of small unit lies next to zero
		if (K >= 8 || K <= -12) { int k = K > 0 ? 4 - K : 4; Ev("frnd").a("s", raw(lanesOf().data(), N)).b("large", K > 0)
			.a("round", lanes(round(acc), k)).a("floor", lanes(floor(acc), k)).a("ceil", lanes(ceil(acc), k)).a("trunc", lanes(trunc(acc), k)).end(); }
	}
	// the sign of a number of any size is one with its sign
	void signs(Rng& r)
	{
		float a[4]; Ints neg; for (auto& x : a) { do { uint32 u = r.u32(); memcpy(&x, &u, 4); } while (std::isnan(x) || x == 0.0f); }
		for (int i = 0; i < N; i++) neg.push_back(std::signbit(a[i]));
		V v = make(a), s = sign(v); Ev("fsgn").a("neg", neg).a("r", lanes(s, 4)).i("bits", signBits(v)).a("abs", bitsv(abs(v))).a("src", bits(a, N)).a("minus", bitsv(-v)).end();
	}
	void cmp(const float* bw, float n)
	{
		V b = make(bw); Ev e("fcmp");
		e.a("b", raw(bw, N)).i("k", enc(n, 4 - K));
		#define C(K, O) e.a(K, ml(acc O b, N)).a(K "s", ml(acc O n, N)).a("s" K, ml(n O acc, N));
		C("lt", <) C("gt", >) C("le", <=) C("ge", >=)
		#undef C
		e.a("eqs", Ints{ acc == b, acc == n, n == acc, !(acc != b), !(acc != n), !(n != acc) });
		e.a("equal", ml(equal(acc, b), N)).a("nequal", ml(notEqual(acc, b), N)).end();
	}
	static V min3a(const V& a, const V& b, const V& c, No) { return min(a, b, c); }
	static V max3a(const V& a, const V& b, const V& c, No) { return max(a, b, c); }
	static V min3a(const V& a, const V& b, const V& c, Yes) { return min(min(a, b), c); }
	static V max3a(const V& a, const V& b, const V& c, Yes) { return max(max(a, b), c); }
	void sel(const float* bw, const float* cw, const uint32* mw)
	{
		V b = make(bw), c = make(cw), lo = min(b, c), hi = max(b, c); M m = mkm(mw, (M*)0);
		float c2[4]; for (int i = 0; i < 4; i++) c2[i] = cw[i] * S;
		Ints mi; for (int i = 0; i < N; i++) mi.push_back((int32)mw[i]);
		Ev("fsel").a("b", raw(bw, N)).a("c", raw(cw, N)).a("m", mi).a("min", lanes(min(acc, b))).a("max", lanes(max(acc, b)))
			.a("min3", lanes(min3a(acc, b, c, Simd()))).a("max3", lanes(max3a(acc, b, c, Simd())))
			.a("clamp", lanes(clamp(acc, lo, hi))).a("select", lanes(select(m, acc, b))).a("fma", lanes(fma(acc, b, make(c2)), 4 - 2 * K)).end();
	}
	// lengths and products; in SIMD the three component variants must not look at the fourth lane
	void geo(const float* bw, No)
	{
		V b = make(bw); float d = dot(acc, b), l = length(acc), s = distance(acc, b); V nz = normalize(acc);
		Ev("fgeo").i("n", N).a("b", raw(bw, N)).i("dot", enc(d, 4 - 2 * K)).i("lensq", enc(lengthSq(acc), 4 - 2 * K)).i("distsq", enc(distanceSq(acc, b), 4 - 2 * K))
			.i("len", encr(l, 64 / S)).i("dist", encr(s, 64 / S)).a("unit", lanesr(nz, 4096)).b("isunit", isNormalized(nz, 1.0e-5f)).bs("close", { isClose(acc, b, 4.0f * S * S), isClose(acc, acc, 0.0f), isClose(acc, b, distanceSq(acc, b)) })
			.a("cross", crossOf(acc, b)).end();
	}
	static Ints crossOf(const float3& a, const float3& b) { return lanes(cross(a, b), 4 - 2 * K); }
	template<class T> static Ints crossOf(const T&, const T&) { return Ints(); }
	void geo(const float* bw, Yes)
	{
		V b = make(bw);
		int k2 = 4 - 2 * K; double u = 64 / S; Ints d4 = lanes(dotV4(acc, b), k2), d3 = lanes(dotV3(acc, b), k2);
		V n4 = normalize4(acc), n3 = normalize3(acc);
		Ev("fgeo").i("n", 4).a("b", raw(bw, 4)).i("dot", enc(dot4(acc, b), k2)).i("lensq", enc(lengthSq4(acc), k2)).i("distsq", enc(distanceSq4(acc, b), k2))
			.i("len", encr(length4(acc), u)).i("dist", encr(distance4(acc, b), u)).a("unit", lanesr(n4, 4096)).b("isunit", isNormalized4(n4, 1.0e-5f)).a("cross", Ints()).end();
		Ev("fgeo").i("n", 3).a("b", raw(bw, 3)).i("dot", enc(dot3(acc, b), k2)).i("lensq", enc(lengthSq3(acc), k2)).i("distsq", enc(distanceSq3(acc, b), k2))
			.i("len", encr(length3(acc), u)).i("dist", encr(distance3(acc, b), u)).a("unit", lanesr(n3, 4096, 3)).b("isunit", isNormalized3(n3, 1.0e-5f))
			.a("cross", lanes(cross3(acc, b), k2, 3)).end();
		Ev("fdots").a("b", raw(bw, 4)).a("d4", d4).a("d3", d3).a("r", Ints{ enc(min4(acc), 4 - K), enc(max4(acc), 4 - K), enc(min3(acc), 4 - K), enc(max3(acc), 4 - K) }).end();
	}
	void mixes(Rng& r)
	{
		float bw[4]; for (auto& x : bw) x = q(r, 32);
		int t4 = r.range(-4, 8), dt = r.range(0, 3); float f = r.pick({ 0.5f, 0.25f, 1.0f, 2.0f }); V b = make(bw);
		V l = lerp(acc, b, t4 / 4.0f), ld = lerpDelta(acc, b, f, (float)dt);
		Ev("flerp").a("b", raw(bw, N)).i("t", t4).a("r", lanes(l)).i("f", (int)(f * 4)).i("dt", dt).a("rd", lanes(ld, 10 - K)).end();
		V z = repeat(plain());
		float dw[4]; for (auto& x : dw) x = r.pick({ 0.5f, 1.0f, 2.0f, 4.0f, 0.25f }) * S; V d = make(dw);
		Ev("frep").a("r", lanes(z, 4)).a("d", raw(dw, N)).a("mod", lanes(mod(acc, d))).end();
	}
	void root(Rng& r)
	{
		float a[4]; Ints sq; for (auto& x : a) { int k = r.range(0, 200); x = r.coin() ? k / 4.0f * (k / 4.0f) : r.range(0, 4000) / 16.0f; }
		int h = r.coin() ? 0 : r.range(-24, 24); for (auto& x : a) x = std::ldexp(x, 2 * h);
		V v = make(a); Ev("fsqrt").a("a", raw(a, N, 4 - 2 * h)).a("r", lanesr(sqrt(v), std::ldexp(1024, -h))).end();
	}
	// a length may be next to one without being one
	static void nearUnit(int n, const Ints& v, const V& r, const V& again, bool in, bool out, bool one) { Ev("fnear").i("n", n).a("v", v).a("r", lanesr(r, 8192, n)).a("again", lanesr(again, 8192, n)).bs("is", { in, out, one }).end(); }
	void almost(Rng& r)
	{
		float a[4]; Ints v; int k = r.range(4, 11); double n4 = 0, n3 = 0; float t = std::ldexp(1.0f, 1 - k);
		do { v.clear(); n4 = n3 = 0; for (int i = 0; i < N; i++) { int c = r.range(-9, 9); v.push_back(c); n4 += c * c; if (i < 3) n3 += c * c; } } while (n3 < 1);
		double by = r.coin() ? 1 + std::ldexp(1, -k) : 1 - std::ldexp(1, -k);
		auto put = [&](double nn) { for (int i = 0; i < 4; i++) a[i] = i < N ? (float)(v[i] * by / std::sqrt(nn)) : 0.0f; return make(a); };
		almost(put, n4, n3, v, t, Simd());
	}
	template<class P> void almost(P put, double n4, double, const Ints& v, float t, No) { V x = put(n4), u = normalize(x); nearUnit(N, v, u, normalize(u), isNormalized(x, 4 * t), isNormalized(x, t / 4), isNormalized(u, 1.0e-5f)); }
	template<class P> void almost(P put, double n4, double n3, Ints v, float t, Yes)
	{
		V x = put(n4), u = normalize4(x); nearUnit(4, v, u, normalize4(u), isNormalized4(x, 4 * t), isNormalized4(x, t / 4), isNormalized4(u, 1.0e-5f));
		x = put(n3); u = normalize3(x); v.resize(3); nearUnit(3, v, u, normalize3(u), isNormalized3(x, 4 * t), isNormalized3(x, t / 4), isNormalized3(u, 1.0e-5f));
	}
	// one operation in every form
	struct Forms { V vv, cv, vs, cs, sv; };
	static Forms forms(char f, const V& x, const V& y, float n)
	{
		Forms o{ x, x, x, x, x };
		#define B(C, O) case C: o.vv = x O y; o.cv O##= y; o.vs = x O n; o.cs O##= n; o.sv = n O x; break;
		switch (f) { B('+', +) B('-', -) B('*', *) B('/', /) }
		#undef B
		return o;
	}
	// a result is the number next to the exact one: whole numbers, also counted in the least number there is
	void nearest(Rng& r)
	{
		char f = "+-*"[r.range(0, 2)]; int u = f == '*' || r.range(0, 2) ? 0 : r.pick({ -149, 60 }); float x[4], y[4], z[4];
		auto num = [&] { int v = f == '*' ? r.range(0, 24000) : r.range(0, 1 << r.range(0, u == -149 ? 22 : 28)); v = (int)(float)v; return std::ldexp((float)(r.coin() ? v : -v), u); };
		for (int i = 0; i < 4; i++) { x[i] = num(); y[i] = num(); z[i] = std::ldexp((float)r.range(-(1 << 24), 1 << 24), r.range(0, 4)); }
		float n = y[r.range(0, 3)]; Forms o = forms(f, make(x), make(y), n);
		Ev("fround").t("f", std::string(1, f)).a("a", raw(x, N, -u)).a("b", raw(y, N, -u)).i("k", enc(n, -u)).a("vv", lanes(o.vv, -u)).a("cv", lanes(o.cv, -u)).a("vs", lanes(o.vs, -u)).a("cs", lanes(o.cs, -u)).a("sv", lanes(o.sv, -u)).end();
		if (f == '*') fused(x, y, z, Simd());
	}
	void fused(const float* x, const float* y, const float* z, No) { Ev("ffused").a("a", raw(x, N, 0)).a("b", raw(y, N, 0)).a("c", raw(z, N, 0)).a("r", lanes(fma(make(x), make(y), make(z)), 0)).end(); }
	void fused(const float*, const float*, const float*, Yes) { }
	// quotients as whole numbers of 24 bits and the power of two that makes them so
	static Ints parts(const V& v) { Ints o; for (int i = 0; i < N; i++) { int e = 0; double m = std::frexp((double)v[i], &e); o.push_back(enc(m, 24)); o.push_back(24 - e); } return o; }
	void quotients(Rng& r)
	{
		float x[4], y[4]; auto num = [&] { return (float)(r.coin() ? r.range(1, 63) : -r.range(1, 63)); };
		for (int i = 0; i < 4; i++) { x[i] = num(); y[i] = num(); }
		float n = num(); Forms o = forms('/', make(x), make(y), n);
		Ev("fquot").a("a", raw(x, N, 0)).a("b", raw(y, N, 0)).i("k", enc(n, 0)).a("vv", parts(o.vv)).a("cv", parts(o.cv)).a("vs", parts(o.vs)).a("cs", parts(o.cs)).a("sv", parts(o.sv)).end();
	}
	// zero has a sign: 1 for minus, -1 for not a number
	static Ints side(const V& v) { Ints o; for (int i = 0; i < N; i++) o.push_back(std::isnan(v[i]) ? -1 : std::signbit(v[i]) ? 1 : 0); return o; }
	void zeros(Rng& r)
	{
		float x[4], y[4]; auto num = [&] { return r.pick({ 0.0f, -0.0f, 0.0f, -0.0f, 1.0f, -1.0f, 3.0f, -3.0f, INFINITY, -INFINITY }); };
		for (int i = 0; i < 4; i++) { x[i] = num(); y[i] = num(); }
		char f = "+-*/"[r.range(0, 3)]; float n = num(); V a = make(x), b = make(y), k = make(std::vector<float>(4, n).data()); Forms o = forms(f, a, b, n);
		Ev("fzero").t("f", std::string(1, f)).a("a", raw(x, N, 4)).a("sa", side(a)).a("b", raw(y, N, 4)).a("sb", side(b)).i("k", enc(n, 4)).a("sk", side(k))
			.a("vv", side(o.vv)).a("cv", side(o.cv)).a("vs", side(o.vs)).a("cs", side(o.cs)).a("sv", side(o.sv)).a("neg", side(-a)).a("abs", side(abs(a))).end();
	}
	void gains(Rng& r, No)
	{
		float x[4], y[4], k[4]; Ints xi, ki; for (int i = 0; i < 4; i++) { int m = r.range(0, 16), p = r.range(1, 4); x[i] = m / 16.0f; y[i] = 1 - x[i]; k[i] = (float)p; xi.push_back(m); ki.push_back(p); }
		V g = gain(make(x), make(k)), s = gain(make(y), make(k)); xi.resize(N); ki.resize(N);
		Ev("fgain").a("x", xi).a("k", ki).a("g", lanesr(g, 65536)).a("s", lanesr(s, 65536)).end();
	}
	void gains(Rng&, Yes) { }
	void roots(Rng& r, No)   // gains of exponents below one are halves of roots of twice the argument
	{
		int p = r.pick({ 1, 2, 4 }), h = r.range(1, 120 / p); float x[4], k[4]; Ints m;
		for (int i = 0; i < 4; i++) { int c = r.range(0, 3) ? r.range(0, std::min(1 << std::min(h, 20), p == 4 ? 50 : 1000) - 1) : 0; m.push_back(c); x[i] = (float)std::ldexp(std::pow((double)c, p), -p * h - 1); k[i] = 1.0f / p; }
		m.resize(N); Ev("froot").a("m", m).a("g", lanesr(gain(make(x), make(k)), std::ldexp(1, h + 1))).end();
	}
	void roots(Rng&, Yes) { }
	// every lane of a lanewise function is the scalar function of that lane
	template<class F, class G> void lanewise(const char* name, float* a, F f, G g)
	{
		V v = f(make(a)); float ref[4]; for (int i = 0; i < 4; i++) ref[i] = g(a[i]);
		Ev("flane").t("f", name).a("r", bitsv(v)).a("ref", bits(ref, N)).end();
	}
	void library(Rng& r, No)
	{
		float a[4], b[4]; for (int i = 0; i < 4; i++) { a[i] = r.range(1, 999) / 1000.0f; b[i] = a[i] + r.range(1, 5); }
		#define L1(F, A) lanewise(#F, A, [](const V& v) { return F(v); }, [](float x) { return std::F(x); });
		L1(exp, b) L1(exp2, b) L1(expm1, a) L1(log, b) L1(log10, b) L1(log2, b) L1(log1p, a) L1(cbrt, b) L1(sin, b) L1(cos, b) L1(tan, b) L1(asin, a) L1(acos, a) L1(atan, b)
		L1(sinh, b) L1(cosh, b) L1(tanh, a) L1(asinh, b) L1(acosh, b) L1(atanh, a)
		// and of every lane there is: signs, magnitudes, arguments outside of the domain
		float w[4]; for (auto& x : w) { float m = r.range(1, 999) / 1000.0f; switch (r.range(0, 4)) { case 0: x = -m; break; case 1: x = r.range(-300, 300) / 4.0f; break; case 2: x = std::ldexp(r.coin() ? m : -m, r.range(-60, 24)); break; case 3: x = (float)r.range(-3, 3); break; default: x = m + r.range(-6, 6); } }
		L1(exp, w) L1(exp2, w) L1(expm1, w) L1(log, w) L1(log10, w) L1(log2, w) L1(log1p, w) L1(cbrt, w) L1(sin, w) L1(cos, w) L1(tan, w) L1(asin, w) L1(acos, w) L1(atan, w)
		L1(sinh, w) L1(cosh, w) L1(tanh, w) L1(asinh, w) L1(acosh, w) L1(atanh, w) L1(sqrt, w)
		#undef L1
		if (r.coin()) for (int i = 0; i < 4; i++) { a[i] = w[i]; b[i] = r.coin() ? (float)r.range(-4, 5) : r.range(-16, 16) / 4.0f; } // powers of negative numbers, angles of every quadrant
		V va = make(a), vb = make(b); float p[4], t[4]; for (int i = 0; i < 4; i++) p[i] = std::pow(a[i], b[i]), t[i] = std::atan2(a[i], b[i]);
		Ev("flane").t("f", "pow").a("r", bitsv(pow(va, vb))).a("ref", bits(p, N)).end();
		Ev("flane").t("f", "atan2").a("r", bitsv(atan(va, vb))).a("ref", bits(t, N)).end();
	}
	void library(Rng& r, Yes)
	{
		// the vectorised functions obey the laws of the functions they approximate; values in 1/8192
		const double U = 8192; float a[4], b[4], s[4];
		auto trig = [&]
		{
			V va = make(a), vb = make(b), vs = make(s), sa, ca, sb, cb, ss, cs; sinCos(va, sa, ca); sinCos(vb, sb, cb); sinCos(vs, ss, cs);
			V sn, cn; sinCos(-va, sn, cn);
			Ev("ftrig").a("sa", lanesr(sa, U)).a("ca", lanesr(ca, U)).a("sb", lanesr(sb, U)).a("cb", lanesr(cb, U)).a("ss", lanesr(ss, U)).a("cs", lanesr(cs, U))
				.a("sn", lanesr(sn, U)).a("cn", lanesr(cn, U)).end();
		};
		int wide = r.pick({ 400, 4000, 262144 }); // sums of sixty-fourths are exact
		for (int i = 0; i < 4; i++) { a[i] = r.range(-wide, wide) / 64.0f; b[i] = r.range(-wide, wide) / 64.0f; s[i] = a[i] + b[i]; }
		trig();
		for (int i = 0; i < 4; i++) { a[i] = r.range(-400, 400) / 100.0f; b[i] = r.range(-400, 400) / 100.0f; s[i] = a[i] + b[i]; }
		trig();
		{	// the numbers next to many twelfths of pi, how far next to them in 2^-20
			Ints k, d; for (int i = 0; i < 4; i++) { int n = r.range(-1, 1) * 6 + r.range(0, 3) * r.range(0, r.pick({ 24, 600, 10400 })); if (r.coin()) n = -n; double e = n * (M_PI / 12); a[i] = (float)e; k.push_back(n); d.push_back(encr(a[i] - e, 1048576)); }
			V sk, ck; sinCos(make(a), sk, ck); Ev("ftrigk").a("k", k).a("d", d).a("s", lanesr(sk, 65536)).a("c", lanesr(ck, 65536)).end();
		}
		for (int i = 0; i < 4; i++) { a[i] = r.range(-400, 400) / 100.0f; s[i] = a[i] + b[i]; }
		V va = make(a), vb = make(b), vs = make(s);
		float x[4], y[4], p[4], h2[4]; Ints xi, ki; for (int i = 0; i < 4; i++) { x[i] = std::ldexp(r.range(100, 4000) / 1000.0f, r.range(-6, 6)); y[i] = std::ldexp(r.range(100, 4000) / 1000.0f, r.range(-6, 6)); p[i] = x[i] * y[i]; h2[i] = x[i] * 2; }
		V lx = log(make(x)), ly = log(make(y)), lp = log(make(p)), l2 = log(make(h2)); const double L = 131072;
		Ev("flog").a("x", lanesr(lx, L)).a("y", lanesr(ly, L)).a("p", lanesr(lp, L)).a("twice", lanesr(l2, L)).a("back", ratio(exp(lx), make(x), 65536)).end();
		{	// over the whole range of exponents, subnormal numbers included
			float m1[4], m2[4], h1[4], h3[4]; Ints k; const double W = 131072;
			for (int i = 0; i < 4; i++) { int e = r.range(0, 3) ? r.range(-146, 127) : r.range(-146, -120); m1[i] = r.range(8, 15) / 8.0f; m2[i] = std::ldexp(m1[i], e); k.push_back(e); h3[i] = (r.range(0, 3) ? r.range(-9600, 8872) : r.range(8700, 8872)) / 100.0f; h1[i] = h3[i] / 2; }
			V e1 = exp(make(h1)), e3 = exp(make(h3)); Ints q; for (int i = 0; i < N; i++) q.push_back(encr((double)e3[i] / ((double)e1[i] * (double)e1[i]), 4096));
			float out[4] = { r.range(890, 2000) / 10.0f, -r.range(1045, 2000) / 10.0f, 1e30f, -1e30f }; V eo = exp(make(out));
			Ev("fwide").a("k", k).a("x", lanesr(log(make(m1)), W)).a("y", lanesr(log(make(m2)), W)).a("q", q).a("out", lanesr(eo, 1)).end();
		}
		float w[4]; for (auto& z : w) z = r.pick({ 0.0f, -0.0f, -1.0f, -INFINITY, INFINITY, NAN, 1.0f, -2.5f }); V lw = log(make(w)), ew = exp(make(w));
		Ev("fspecial").a("a", raw(w, 4)).a("log", lanesr(lw, 16)).a("exp", lanesr(ew, 16)).end();
		V ea = exp(va), eb = exp(vb), es = exp(vs), em = exp(-va);
		Ev("fexp").a("sum", ratio(ea * eb, es, 65536)).a("inv", lanesr(ea * em, 65536)).b("pos", areAllTrue(ea > 0.0f) && areAllTrue(eb > 0.0f)).end();
		Ints n; float e0[4], b0[4]; for (int i = 0; i < 4; i++) { b0[i] = (r.coin() ? 1 : -1) * r.range(1, 6) / 2.0f; e0[i] = (float)r.range(-4, 4); if (r.range(0, 7) == 0) { b0[i] = 0; e0[i] = (float)r.range(0, 4); } }
		V fp = fastPow(make(b0), make(e0)); V ip = pow(make(b0), make(e0));
		Ev("fpow").a("b", raw(b0, 4, 1)).a("e", raw(e0, 4, 0)).a("fast", lanesr(fp, 4096)).a("pow", lanesr(ip, 4096)).end();
		float pb[4], e1[4], e2[4], e3[4]; // any power of a positive number
		for (int i = 0; i < 4; i++) { pb[i] = std::ldexp(r.range(100, 4000) / 1000.0f, r.range(-12, 12)); int lim = (int)(1200 / (1 + std::fabs(std::log(pb[i])))); e1[i] = r.range(-lim, lim) / 64.0f; e2[i] = r.range(-lim, lim) / 64.0f; e3[i] = e1[i] + e2[i]; }
		V B = make(pb), f1 = fastPow(B, make(e1)), f2 = fastPow(B, make(e2)), f3 = fastPow(B, make(e3)), p1 = pow(B, make(e1)), p2 = pow(B, make(e2)), p3 = pow(B, make(e3));
		Ev("fpowr").a("same", ratio(f1, p1, 65536)).a("fast", ratio(f1 * f2, f3, 65536)).a("pow", ratio(p1 * p2, p3, 65536)).a("one", ratio(pow(B, make(std::vector<float>(4, 1.0f).data())), B, 65536))
			.a("root", ratio(pow(p1, make(std::vector<float>(4, 0.5f).data())) * pow(p1, make(std::vector<float>(4, 0.5f).data())), p1, 65536)).end();
		float ob[4], oe[4]; for (int i = 0; i < 4; i++) { ob[i] = r.coin() ? 1.0f : -1.0f; oe[i] = (r.coin() ? 1 : -1) * (r.coin() ? (float)r.range(0, 16777216) : r.coin() ? 16777215.0f - r.range(0, 3) : (float)r.range(16777216, 1 << 30)); }
		Ev("fpow1").a("b", raw(ob, 4, 0)).a("e", raw(oe, 4, 0)).a("fast", lanesr(fastPow(make(ob), make(oe)), 65536)).a("pow", lanesr(pow(make(ob), make(oe)), 65536)).end();
	}
	static Ints ratio(const V& a, const V& b, double unit) { Ints r; for (int i = 0; i < N; i++) r.push_back(encr((double)a[i] / (double)b[i], unit)); return r; }

	void random(Rng& r, int steps)
	{
		float a[4], b[4], c[4]; uint32 m[4];
		rec.episode(); fresh(r);
		for (int s = 0; s < steps; s++)
		{
			if (rec.events >= rec.perFile) rec.open(), fresh(r);
			if (!onLattice()) fresh(r);
			for (int i = 0; i < 4; i++) { a[i] = q(r); b[i] = q(r); c[i] = q(r); m[i] = r.coin() ? (r.coin() ? ~0u : 0) : r.u32(); }
			if (r.range(0, 3) == 0) { int k = r.range(0, 4); for (int i = 0; i < N; i++) if (i != k) b[i] = acc[i]; }
			float n = r.range(0, 3) ? q(r) : (float)acc[r.range(0, N - 1)];
			switch (r.range(0, 13))
			{
			case 0: load(a); break;
			case 1: un(); signs(r); zeros(r); nearest(r); quotients(r); break;
			case 2: cmp(b, n); break;
			case 3: sel(b, c, m); break;
			case 4: set(r.range(0, N - 1), a[0]); break;
			case 5: if (r.range(0, 3) == 0) fill(a[0]); break;
			case 6: geo(b, Simd()); break;
			case 7: mixes(r); break;
			case 8: root(r); almost(r); gains(r, Simd()); roots(r, Simd()); break;
			case 9: { for (auto& x : a) x = special(r); for (auto& x : b) x = special(r); load(a);   // not numbers and infinities
				float k = special(r); if (r.coin()) cmp(b, k); else bin("+-"[r.range(0, 1)], b, k, 0);
				for (auto& x : a) while (std::isnan(x)) x = special(r); for (auto& x : b) while (std::isnan(x)) x = special(r);
				for (auto& x : c) x = std::isinf(x) ? 0 : x;
				load(a); cmp(b, k); minmax(b); bin("+-/"[r.range(0, 2)], b, k, 0); fresh(r); break; }
			default: bin("+-*/"[r.range(0, 3)], b, n, r.range(0, 2));
			}
		}
	}
	void minmax(const float* bw) { V b = make(bw); Ev("fminmax").a("b", raw(bw, N)).a("min", lanes(min(acc, b))).a("max", lanes(max(acc, b))).end(); }
	void replay(const std::vector<int>& s, Rng& r)
	{
		rec.episode(); unit(r);
		for (size_t k = 0; k + 2 < s.size(); k += 3)
		{
			float b[4]; for (int i = 0; i < 4; i++) b[i] = ((s[k + 1] * (i + 1) + s[k + 2] * 3) % 37 / 4.0f - 4) * S;
			float n = (s[k + 2] - 11) / 4.0f * S;
			if (k == 0) load(b);
			else if (!onLattice()) load(b);
			else if (s[k] < 4) bin("+-*/"[s[k]], b, n, 1 + (s[k + 1] + s[k + 2]) % 2);
			else if (s[k] == 4) cmp(b, n);
			else if (s[k] == 5) set(s[k + 1] % N, n);
			else if (s[k] == 6) un();
			else if (s[k] == 7) geo(b, Simd());
			else mixes(r);
		}
	}
	void lib(Rng& r, int steps) { unit(0); rec.episode(); for (int k = 0; k < steps; k++) { if (rec.events >= rec.perFile) rec.open(); library(r, Simd()); } }
	void go(const std::string& what, Rng& r, bool thorough, const char* script)
	{
		if (what == "random") random(r, thorough ? 40000 : 2500);
		else if (what == "lib") lib(r, thorough ? 4000 : 150);
		else for (auto& s : readScript(script, "vec")) replay(s, r);
	}
};

int main(int argc, char** argv)
{
	Args g = init(argc, argv); Rng r(g.seed);
	std::string fam = g.mode.substr(0, 4), what = g.mode.substr(4);
	if (fam == "scal") { Machine<float2>().go(what, r, g.thorough, g.script); Machine<float3>().go(what, r, g.thorough, g.script); Machine<float4>().go(what, r, g.thorough, g.script); }
	else Machine<f32x4>().go(what, r, g.thorough, g.script);
	return 0;
}
