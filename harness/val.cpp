// Packed containers and small value types: hexadecimal text, colours, versions, enum flags, scalar functions, mip chains.
#include "h.hpp"
#include "math/packed-vector.hpp"
#include "math/hex.hpp"
#include "math/color.hpp"
#include "math/version.hpp"
#include "math/flags.hpp"
#include "math/common.hpp"
#include "math/angles.hpp"
using namespace h;
typedef math::uint8 uint8; typedef math::uint32 uint32; typedef math::uint64 uint64; typedef math::int32 int32; typedef math::int64 int64; typedef math::psize psize;
using math::Color; using math::Version; using math::f32x4; using math::u32x4; using math::float2; using math::float3; using math::float4; using math::uint2; using math::uint3;

static Ints chars(const std::string& s) { Ints r; for (unsigned char c : s) r.push_back(c); return r; }
static Ints bytesOf(uint64 v, int n) { Ints r; for (int i = 0; i < n; i++) r.push_back((v >> (8 * i)) & 255); return r; }

// ---------------------------------------------------------------- packed vectors
template<int B> struct Pack
{
	typedef math::PackedVector<B> P;
	P v[2]; size_t n[2] = { 0, 0 };
	enum { Per = 8 / B };
	void rec1(const char* f, int k, long long x, long long y)
	{
		std::vector<Ints> e(2), u(2), c(2), p(2);
		for (int j = 0; j < 2; j++)
		{
			const P& q = v[j]; P copy(v[j]);
			for (size_t i = 0; i < n[j]; i++) { e[j].push_back(q.get(i)); u[j].push_back(q.unsafeGet(i)); c[j].push_back(copy.get(i)); }
			for (uint8 b : q) p[j].push_back(b);
		}
		Ev("p").t("f", f).i("k", k + 1).i("x", x).i("y", y).aa("e", e).aa("u", u).aa("c", c).aa("p", p).end();
	}
	void begin() { v[0] = P(); v[1] = P(); n[0] = n[1] = 0; Ev("pbegin").i("b", B).end(); }
	void step(int o, int k, int x, int y)
	{
		int m = 1 - k;
		switch (o)
		{
		case 0: v[k] = P((psize)x); n[k] = x; rec1("new", k, x, 0); break;
		case 1: case 2: v[k].resize(x); n[k] = x; rec1("resize", k, x, 0); break;
		case 3: v[m] = v[k]; n[m] = n[k]; rec1("copy", k, 0, 0); break;
		case 4: { P t(v[k]); v[m].swap(t); std::swap(v[m], v[m]); n[m] = n[k]; rec1("copy", k, 0, 0); break; }
		case 5: if (y & 1) v[m] = std::move(v[k]); else { P t(std::move(v[k])); v[m] = std::move(t); }
			v[k].clear(); n[m] = n[k]; n[k] = 0; rec1("move", k, 0, 0); break;
		case 6: if (y & 1) std::swap(v[0], v[1]); else v[0].swap(v[1]); std::swap(n[0], n[1]); rec1("swap", 0, 0, 0); break;
		case 7: if (y & 3) return; v[k].clear(); n[k] = 0; rec1("clear", k, 0, 0); break;
		case 8: if (y & 1) v[k].reserve(v[k].size() + x + 1); else v[k].shrink_to_fit(); rec1("keep", k, 0, 0); break;
		case 9: if (n[k] % Per) return; v[k].push_back((uint8)y); n[k] += Per; rec1("append", k, 0, y); break;
		default: if (!n[k]) return; x %= n[k]; if (o & 1) v[k].set(x, (uint8)y); else v[k].unsafeSet(x, (uint8)y); rec1("set", k, x, y); break;
		}
	}
	void go(Rng& r, bool thorough)
	{
		for (int e = 0; e < (thorough ? 120 : 10); e++)
		{
			rec.episode(); begin();
			int top = r.pick({ 9, 17, 40, 70 });
			for (int i = 0; i < 60; i++) step(r.range(0, 16), r.range(0, 1), r.range(0, top), r.range(0, 255));
		}
	}
	// a container of more elements than 32 bits count: steps of (1 set, 2 get, 3 resize, 4 size in bytes, 5 byte) on one container
	void giant(Rng& r)
	{
		rec.episode();
		P g; std::vector<Ints> w; uint64 two = (uint64)1 << 32, top = two + r.range(40, 99); std::vector<uint64> at;
		auto note = [&](int f, uint64 x, int y) { w.push_back({ f, (long long)(x >> 24), (long long)(x & 0xFFFFFF), y }); };
		auto size = [&](uint64 x) { g.resize((psize)x); note(3, x, 0); note(4, g.size(), 0); };
		auto look = [&](uint64 x) { note(2, x, r.coin() ? g.get((psize)x) : g.unsafeGet((psize)x)); note(5, x / Per, g.data()[x / Per]); };
		size(top);
		for (uint64 base : { (uint64)0, two / 16, two / 8, two / 4, two / 2, two }) for (int i = 0; i < 3; i++) at.push_back(base + r.range(base ? -20 : 0, 35));
		for (auto x : at)
		{
			int y = r.range(1, 255); note(1, x, y); if (r.coin()) g.set((psize)x, (uint8)y); else g.unsafeSet((psize)x, (uint8)y);
			look(x); look(x % (two / 2)); look(x ^ 1);
		}
		for (auto x : at) look(x);
		size(two / 2 + r.range(-15, 15)); for (auto x : at) if (x < two / 2 - 15) look(x);
		if (B == 1) { size(two + 5); for (auto x : at) if (x < two + 5) look(x); }
		Ev("pgiant").i("b", B).aa("w", w).end();
	}
	void replay(const char* script)
	{
		for (auto& s : readScript(script, "packed"))
		{
			rec.episode(); begin();
			for (size_t i = 0; i + 3 < s.size(); i += 4) step(s[i], s[i + 1], s[i + 2], s[i + 3]);
		}
	}
};

// ---------------------------------------------------------------- hexadecimal text
static uint64 anyWide(Rng& r) { switch (r.range(0, 3)) { case 0: return r.next() >> r.range(0, 63); case 1: return (uint64)r.range(0, 300); case 2: return ~(uint64)r.range(0, 300); default: return r.next(); } }
template<class T> static void hexOf(Rng& r, T v)
{
	int w = sizeof(T) * 2;
	uint64 low = sizeof(T) == 8 ? (uint64)v : (uint64)v & ((1ull << (8 * (sizeof(T) & 7))) - 1);
	auto one = [&](int n) {
		std::string s = math::toHex(v, (psize)n), d = math::toHex(v);
		uint64 back = w > 8 ? math::toInt64(d) : math::toInt32(d);
		Ev("hex").a("v", bytesOf(low, sizeof(T))).i("n", n).b("w", n == w).a("s", chars(s)).a("d", chars(d)).a("back", bytesOf(back, 8)).end(); };
	one(w); one(r.range(1, w)); one(1);
	if ((int64)v >= 0) { one(w + 1); one(r.range(w, 40)); one(2 * w); }      // longer texts of non-negative numbers are zero padded
	std::string s, t; int n = r.range(1, 8), m = r.range(1, 16);
	for (int i = 0; i < n; i++) s += "0123456789ABCDEFabcdef"[r.range(0, 21)];
	for (int i = 0; i < m; i++) t += "0123456789ABCDEFabcdef"[r.range(0, 21)];
	Ev("unhex").a("s", chars(s)).a("s16", chars(t)).a("v4", bytesOf(math::toInt32(s), 4)).a("v8", bytesOf(math::toInt64(t), 8)).end();
}

// ---------------------------------------------------------------- colours
static Ints ch(Color c) { return { c.r, c.g, c.b, c.a }; }
static Ints q255(std::initializer_list<float> l) { Ints r; for (float x : l) r.push_back(encr((double)x * 255.0, 65536)); return r; }
static std::string lower(std::string s) { for (auto& c : s) c = (char)tolower(c); return s; }
static void colorBytes(uint8 r, uint8 g, uint8 b, uint8 a)
{
	Color c(r, g, b, a); uint32 w = (uint32)r | (uint32)g << 8 | (uint32)b << 16 | (uint32)a << 24;
	char hex[16]; snprintf(hex, sizeof hex, "%02X%02X%02X%02X", r, g, b, a);
	float2 f2 = (float2)c; float3 f3 = (float3)c; float4 f4 = (float4)c; f32x4 fs = (f32x4)c;
	Color st; st.setNormR(c.getNormR()); st.setNormG(c.getNormG()); st.setNormB(c.getNormB()); st.setNormA(c.getNormA());
	Ev("cbytes").a("c", { r, g, b, a }).a("four", ch(c)).a("one", ch(Color(r))).a("word", ch(Color(w))).a("def", ch(Color()))
		.a("hex8", ch(Color(std::string(hex)))).a("hex6", ch(Color(std::string(hex, 6)))).a("low8", ch(Color(lower(hex))))
		.a("toword", bytesOf((uint32)c, 4)).a("toh4", chars(c.toHex4())).a("toh3", chars(c.toHex3()))
		.a("s4", chars(c.toString4())).a("s3", chars(c.toString3())).a("s2", chars(c.toString2())).a("s1", chars(c.toString1()))
		.a("f2", q255({ f2.x, f2.y })).a("f3", q255({ f3.x, f3.y, f3.z })).a("f4", q255({ f4.x, f4.y, f4.z, f4.w }))
		.a("simd", q255({ fs.getX(), fs.getY(), fs.getZ(), fs.getW() })).a("get", q255({ c.getNormR(), c.getNormG(), c.getNormB(), c.getNormA() }))
		.a("b2", ch(Color(f2))).a("b3", ch(Color(f3))).a("b4", ch(Color(f4))).a("bs", ch(Color(fs))).a("bset", ch(st)).end();
	f32x4 l = c.toLinear();
	Ev("clin").a("c", ch(c)).a("back", ch(Color::fromLinear(l))).i("alpha", encr((double)l.getW() * 255.0, 65536))
		.a("lin", { encr(l.getX(), 1 << 24), encr(l.getY(), 1 << 24), encr(l.getZ(), 1 << 24) }).end();
}
static void colorFrom(Rng& r)                                                  // any linear light, down to none at all
{
	int x[3]; float f[3]; int a = r.range(-100, 4200);
	for (int i = 0; i < 3; i++)
	{
		switch (r.range(0, 4)) { case 0: x[i] = r.range(0, 1 << 24); break; case 1: x[i] = r.range(0, 1 << r.range(1, 24)); break; case 2: x[i] = r.range(-1, 1) * r.range(0, 1 << r.range(1, 26)); break;
			case 3: x[i] = 0; break; default: x[i] = encr(Color((uint8)r.range(0, 255)).toLinear().getX(), 1 << 24) + r.range(-40, 40); }
		f[i] = std::ldexp((float)x[i], -24);
		if (x[i] == 0) f[i] = r.pick({ 0, 0, 1, -1 }) * std::ldexp(1.0f, r.range(-148, -26));
	}
	Ev("cfrom").a("x", { x[0], x[1], x[2] }).i("a", a).a("c", ch(Color::fromLinear(f32x4(f[0], f[1], f[2], a / 4096.0f)))).end();
}
static void colorNorm(Rng& r)
{
	int x[4]; for (auto& v : x) switch (r.range(0, 3)) { case 0: v = r.pick({ 0, 4096, -1, 4097, 2048, -4096, 900000, -900000 }); break; case 1: v = r.range(-500, 5000); break;
		default: { int n = r.range(0, 255); v = (int)((n * 4096 + 2048) / 255) + r.range(-1, 1); } }       // near the rounding boundaries
	float f[4]; for (int i = 0; i < 4; i++) f[i] = x[i] / 4096.0f;
	uint8 o[4]; for (auto& v : o) v = (uint8)r.u32();
	std::vector<Ints> set;
	for (int i = 0; i < 4; i++)
	{
		Color c(o[0], o[1], o[2], o[3]);
		if (i == 0) c.setNormR(f[0]); else if (i == 1) c.setNormG(f[1]); else if (i == 2) c.setNormB(f[2]); else c.setNormA(f[3]);
		set.push_back(ch(c));
	}
	Ev("cnorm").a("x", { x[0], x[1], x[2], x[3] }).a("old", { o[0], o[1], o[2], o[3] }).a("rg", ch(Color(float2(f[0], f[1])))).a("rgb", ch(Color(float3(f[0], f[1], f[2]))))
		.a("rgba", ch(Color(float4(f[0], f[1], f[2], f[3])))).a("simd", ch(Color(f32x4(f[0], f[1], f[2], f[3])))).aa("set", set).end();
}
static void colorCmp(Rng& r)
{
	uint8 base = (uint8)r.range(1, 254), a[4], b[4]; int m = r.range(0, 4);
	for (int i = 0; i < 4; i++) { a[i] = (uint8)(base + (m ? r.range(-1, 1) : 0)); b[i] = (uint8)(a[i] + (m == 1 ? 0 : m == 2 ? 1 : m == 3 ? r.range(0, 1) : r.range(-1, 1))); }
	if (m != 4 && r.coin()) b[r.range(0, 3)] = (uint8)r.u32();
	if (r.range(0, 7) == 0) std::swap(a, b);
	uint8 n = (uint8)(base + r.range(-1, 1)); Color x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]);
	Ev("ccmp").a("a", ch(x)).a("b", ch(y)).i("n", n).a("cc", { x == y, x != y, x < y, x > y, x <= y, x >= y })
		.a("cn", { x == n, x != n, x < n, x > n, x <= n, x >= n }).a("nc", { n == x, n != x, n < x, n > x, n <= x, n >= x }).end();
}

// ---------------------------------------------------------------- versions
static Ints vp(const Version& v) { return { v.major, v.minor, v.patch, v.build }; }
static void version(Rng& r)
{
	uint8 a[4], b[4]; for (int i = 0; i < 4; i++) { a[i] = (uint8)(r.coin() ? r.u32() : r.pick({ 0, 1, 9, 10, 99, 100, 127, 128, 255 })); b[i] = a[i]; }
	for (int k = r.range(0, 2); k > 0; k--) { int i = r.range(0, 3); b[i] = r.coin() ? (uint8)r.u32() : (uint8)(b[i] + r.range(-1, 1)); }
	Version v(a[0], a[1], a[2], a[3]), w(b[0], b[1], b[2], b[3]); const Version cv(v); uint32 e = (uint32)v;
	Version s = v; int i = r.range(0, 3); s[i] = b[i];
	Ev("ver").a("a", { a[0], a[1], a[2], a[3] }).a("b", { b[0], b[1], b[2], b[3] }).a("parts", vp(v)).a("at", { v[0], v[1], v[2], v[3] })
		.a("cat", { cv[0], cv[1], cv[2], cv[3] }).a("enc", bytesOf(e, 4)).a("of", vp(Version(e))).a("s4", chars(v.toString4())).a("s3", chars(v.toString3()))
		.a("s2", chars(v.toString2())).a("s1", chars(v.toString1())).a("cmp", { v < w, v > w, v <= w, v >= w, v == w, v != w }).i("i", i + 1).a("set", vp(s))
		.aa("short", { vp(Version(a[0])), vp(Version(a[0], a[1])), vp(Version(a[0], a[1], a[2])), vp(Version()) }).end();
}

// ---------------------------------------------------------------- enum flags
#define FLAGS(E, U) enum class E : U {}; DECLARE_ENUM_CLASS_FLAG_OPERATORS(E)
FLAGS(U8, uint8_t) FLAGS(U16, uint16_t) FLAGS(U32, uint32_t) FLAGS(U64, uint64_t) FLAGS(S8, int8_t) FLAGS(S16, int16_t) FLAGS(S32, int32_t) FLAGS(S64, int64_t)
template<class E> static void flags(Rng& r)
{
	const int n = sizeof(E); uint64 x = anyWide(r), y = r.range(0, 3) ? anyWide(r) : x | (r.coin() ? anyWide(r) : 0);
	switch (r.range(0, 7)) { case 0: x = 0; break; case 1: y = 0; break; case 2: x = 1ull << r.range(0, 8 * n - 1); break; case 3: x = 1ull << r.range(0, 8 * n - 1); y = x; break; case 4: x = 1ull << (8 * n - 1); y |= x; break; }
	E a = (E)x, b = (E)y, ao = a, aa = a, ax = a; auto B = [&](E e) { return bytesOf((uint64)e, n); };
	bool refs = &(ao |= b) == &ao; refs = refs & (&(aa &= b) == &aa); refs = refs & (&(ax ^= b) == &ax);
	Ev("flags").a("a", bytesOf(x, n)).a("b", bytesOf(y, n)).a("or", B(a | b)).a("and", B(a & b)).a("xor", B(a ^ b)).a("com", B(~a)).a("not", B(!a))
		.a("cor", B(ao)).a("cand", B(aa)).a("cxor", B(ax)).b("refs", refs).i("any", hasAnyFlag(a, b)).i("one", hasOneFlag(a, b)).end();
}

// ---------------------------------------------------------------- scalar functions
static void scalars(Rng& r)
{
	int a = r.range(-60, 60), b = r.coin() ? a + r.range(-2, 2) : r.range(-60, 60), c = r.coin() ? r.range(-60, 60) : r.coin() ? a : b;
	int K = r.coin() ? 0 : r.pick({ -60, -26, -12, -6, 8, 20, 60 }); float S = std::ldexp(1.0f, K), U = S / 16;      // numbers in any power of two
	Ev("scal3").i("a", a).i("b", b).i("c", c).i("fmin", enc(math::min(a * U, b * U, c * U), 4 - K)).i("fmax", enc(math::max(a * U, b * U, c * U), 4 - K))
		.i("imin", math::min((int32)a, (int32)b, (int32)c)).i("imax", math::max((int32)a, (int32)b, (int32)c)).end();
	int x = r.range(0, 3) ? r.range(-80, 80) : r.range(-20, 20) * 16; bool mz = x == 0 && r.coin(); float fx = mz ? -0.0f : x / 16.0f, gx0 = fx * S;
	Ev("scal1").i("x", x).b("mz", mz).i("sign", enc(math::sign(gx0))).i("rep", enc(math::repeat(fx), 4)).end();
	int t = r.range(-4, 20), f = r.range(0, 4), dt = r.range(0, 3); float fa = a * U, fb = b * U;
	Ev("scall").i("a", a).i("b", b).i("t", t).i("lerp", enc(math::lerp(fa, fb, t / 16.0f), 8 - K)).i("f", f).i("dt", dt)
		.i("ld", enc(math::lerpDelta(fa, fb, f / 4.0f, (float)dt), 10 - K)).end();
	int gx = r.range(0, 16), k = r.range(1, 4);
	float fg = gx || r.coin() ? gx / 16.0f : std::ldexp(1.0f, -r.range(20, 140));   // next to nothing
	Ev("scalg").i("x", gx).i("k", k).i("g", encr(math::gain(fg, (float)k), 65536)).i("s", encr(math::gain(1.0f - fg, (float)k), 65536)).end();
	{	// exponents below one: gain is half of the root of 2x; m / 2^h to the power p, halved, has the root m / 2^h
		int p = r.pick({ 1, 2, 4 }), h = r.range(1, 120 / p), m = r.range(0, std::min(1 << std::min(h, 20), p == 4 ? 50 : 1000) - 1); double x = std::ldexp(std::pow((double)m, p), -p * h - 1);
		bool both = p * h < 24; float f = (float)x;
		Ev("scalr").i("m", m).i("h", h).i("g", encr(math::gain(f, 1.0f / p), std::ldexp(1, h + 1))).b("both", both).i("s", both ? encr(math::gain(1.0f - f, 1.0f / p), 1048576) : 0).end();
	}
	int d[4]; for (auto& v : d) v = r.coin() ? r.range(-720, 720) : r.range(-8, 8) * 45;
	float e[4]; for (int i = 0; i < 4; i++) e[i] = d[i] * S;
	float4 r4 = math::radians(float4(e[0], e[1], e[2], e[3])); f32x4 rs = math::radians(f32x4(e[0], e[1], e[2], e[3]));
	float2 r2 = math::radians(float2(e[0], e[1])); float3 r3 = math::radians(float3(e[0], e[1], e[2]));
	float q[4]; for (int i = 0; i < 4; i++) q[i] = math::radians(e[i]);
	float2 b2 = math::degrees(float2(q[0], q[1])); float3 b3 = math::degrees(float3(q[0], q[1], q[2])); float4 b4 = math::degrees(float4(q[0], q[1], q[2], q[3]));
	f32x4 bs = math::degrees(f32x4(q[0], q[1], q[2], q[3]));
	auto A = [](std::initializer_list<float> l, double u) { Ints o; for (float v : l) o.push_back(encr(v, u)); return o; };
	const double R = 1e5 / S, G = 1e3 / S; auto D = [&](float v) { return math::degrees(v); };
	Ev("angle").a("d", { d[0], d[1], d[2], d[3] }).a("rad", A({ q[0], q[1], q[2], q[3] }, R)).a("r4", A({ r4.x, r4.y, r4.z, r4.w }, R))
		.a("rs", A({ rs.getX(), rs.getY(), rs.getZ(), rs.getW() }, R)).a("r2", A({ r2.x, r2.y }, R)).a("r3", A({ r3.x, r3.y, r3.z }, R))
		.a("back", A({ D(q[0]), D(q[1]), D(q[2]), D(q[3]) }, G)).a("b4", A({ b4.x, b4.y, b4.z, b4.w }, G)).a("bs", A({ bs.getX(), bs.getY(), bs.getZ(), bs.getW() }, G))
		.a("b2", A({ b2.x, b2.y }, G)).a("b3", A({ b3.x, b3.y, b3.z }, G)).end();
}

// ---------------------------------------------------------------- mip chains
static void mips(Rng& r)
{
	uint32 s[3]; for (auto& v : s)
	{
		switch (r.range(0, 3)) { case 0: v = (1u << r.range(0, 31)) - (r.coin() ? 1 : 0); break; case 1: v = (1u << r.range(0, 31)) + (r.coin() ? 1 : 0); break;
			case 2: v = (uint32)r.range(1, 5000); break; default: v = r.u32() >> r.range(0, 31); }
		if (!v) v = 1;
	}
	int m = r.range(0, 7) ? r.range(0, 31) : r.pick({ 32, 33, 40, 64, 128, 255 });
	auto W = [](uint32 v) { return bytesOf(v, 4); };
	uint2 a2 = math::calcSizeAtMip(uint2(s[0], s[1]), (uint8)m); uint3 a3 = math::calcSizeAtMip(uint3(s[0], s[1], s[2]), (uint8)m);
	u32x4 av = math::calcSizeAtMip3(u32x4(s[0], s[1], s[2], r.u32()), (uint8)m);
	Ev("mips").aa("s", { W(s[0]), W(s[1]), W(s[2]) }).i("m", m)
		.a("n", { math::calcMipCount(s[0]), math::calcMipCount(uint2(s[0], s[1])), math::calcMipCount(uint3(s[0], s[1], s[2])), math::calcMipCount3(u32x4(s[0], s[1], s[2], r.u32())) })
		.a("at1", W(math::calcSizeAtMip(s[0], (uint8)m))).aa("at2", { W(a2.x), W(a2.y) }).aa("at3", { W(a3.x), W(a3.y), W(a3.z) }).aa("atv", { W(av.getX()), W(av.getY()), W(av.getZ()) }).end();
}

int main(int argc, char** argv)
{
	Args g = init(argc, argv); Rng r(g.seed); std::string m = g.mode; int T = g.thorough ? 20 : 1;
	if (m == "packed") { Pack<1>().go(r, g.thorough); Pack<2>().go(r, g.thorough); Pack<4>().go(r, g.thorough); }
	else if (m == "packedgiant") { for (int i = 0; i < (g.thorough ? 4 : 1); i++) Pack<1>().giant(r); if (g.thorough) { Pack<2>().giant(r); Pack<4>().giant(r); } }
	else if (m == "packedreplay") { Pack<1>().replay(g.script); Pack<2>().replay(g.script); Pack<4>().replay(g.script); }
	else if (m == "hex") for (int i = 0; i < 150 * T; i++)
	{
		rec.episode(); uint64 w = anyWide(r);
		hexOf<uint8_t>(r, (uint8_t)w); hexOf<uint16_t>(r, (uint16_t)w); hexOf<uint32_t>(r, (uint32_t)w); hexOf<uint64_t>(r, w);
		hexOf<int8_t>(r, (int8_t)w); hexOf<int16_t>(r, (int16_t)w); hexOf<int32_t>(r, (int32_t)w); hexOf<int64_t>(r, (int64_t)w);
	}
	else if (m == "color")
	{
		rec.open();
		std::vector<Ints> k; for (Color c : { Color::white, Color::black, Color::grey, Color::transparent, Color::red, Color::green, Color::blue, Color::cyan, Color::magenta, Color::yellow }) k.push_back(ch(c));
		Ev("cconst").aa("r", k).end();
		for (int p = 0; p < 4 * T; p++) for (int i = 0; i < 256; i++) { rec.episode(); colorBytes((uint8)i, (uint8)(i * 7 + 31 * p), (uint8)(255 - i + p), (uint8)(i * 13 + p)); }
		for (int i = 0; i < 1500 * T; i++) { rec.episode(); colorNorm(r); colorCmp(r); colorFrom(r); }
	}
	else if (m == "version") for (int i = 0; i < 2000 * T; i++) { rec.episode(); version(r); }
	else if (m == "flags") for (int i = 0; i < 500 * T; i++)
	{
		rec.episode(); flags<U8>(r); flags<U16>(r); flags<U32>(r); flags<U64>(r); flags<S8>(r); flags<S16>(r); flags<S32>(r); flags<S64>(r);
	}
	else if (m == "scalar") for (int i = 0; i < 1500 * T; i++) { rec.episode(); scalars(r); }
	else if (m == "mips") for (int i = 0; i < 3000 * T; i++) { rec.episode(); mips(r); }
	else { fprintf(stderr, "unknown mode\n"); return 3; }
	return 0;
}
