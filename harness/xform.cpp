// Transforms and rotations: model matrices, quaternions, Euler angles and look-at frames as events of spec/TraceXform.tla.
#include "h.hpp"
#include "math/matrix/transform.hpp"
#include "math/angles.hpp"
using namespace math;
using namespace h;
typedef std::vector<Ints> Cols;
// Units are powers of two: K of length, G of the scale of a model. No law of transforms knows how large they are.
static int K = 0, G = 0; static float S = 1.0f;
static void unit(int k, int g) { K = k; G = g; S = std::ldexp(1.0f, k); }
static void unit(Rng& r) { unit(r.coin() ? 0 : r.pick({ -34, -20, -12, -6, 8, 14, 20, 30 }), r.coin() ? 0 : r.pick({ -24, -10, -5, 6, 12, 22 })); }
static f32x4 by(f32x4 v, int k) { float s = std::ldexp(1.0f, k); return f32x4(v.getX() * s, v.getY() * s, v.getZ() * s, v.getW()); } // the fourth lane is no length
static long long e4(double v, int k = 0) { return enc(v, 4 - k); }
static Ints lat(f32x4 v, int n, int k = 0) { Ints r; for (int i = 0; i < n; i++) r.push_back(e4(v[i], i < 3 ? k : 0)); return r; }
static Ints un(f32x4 v, int n, double u) { Ints r; for (int i = 0; i < n; i++) r.push_back(encr(v[i], u)); return r; }
static Cols latm(const f32x4x4& m, int c = 4, int n = 4, int k = K, int g = G) { Cols r; const f32x4* p = &m.c0; for (int i = 0; i < c; i++) r.push_back(lat(p[i], n, i < 3 ? g : k)); return r; }
static Cols unm(const f32x4x4& m, double u) { Cols r; const f32x4* p = &m.c0; for (int i = 0; i < 3; i++) r.push_back(un(p[i], 3, u)); return r; }
static Ints halves(quat q) { Ints r; for (int i = 0; i < 4; i++) r.push_back(enc(q[i], 1)); return r; }
static const double W = 8192;
// a fourth lane that no three-component operation may look at
static float junk(Rng& r) { return r.pick({ 0.0f, 1.0f, -7.0f, 1.0e30f, INFINITY, NAN }); }
static float calm(Rng& r) { return r.pick({ 0.0f, 1.0f, -7.0f, 3.5f }); }
static quat hurwitz(Rng& r)
{
	if (r.coin()) return quat(r.coin() ? 0.5f : -0.5f, r.coin() ? 0.5f : -0.5f, r.coin() ? 0.5f : -0.5f, r.coin() ? 0.5f : -0.5f);
	float a[4] = {}; a[r.range(0, 3)] = r.coin() ? 1.0f : -1.0f; return quat(a[0], a[1], a[2], a[3]);
}
static quat anyq(Rng& r)
{
	for (;;)
	{
		double a[4], n = 0; for (auto& x : a) x = r.range(-1000, 1000);
		switch (r.range(0, 5)) { case 0: a[3] /= 500; break; case 1: a[0] /= 300; a[3] /= 300; break; case 2: a[1] = 0; a[2] = 0; break; case 3: a[r.range(0, 3)] = 0; break; default: break; }
		for (auto x : a) n += x * x; if (n < 100) continue; n = std::sqrt(n);
		return quat(float(a[0] / n), float(a[1] / n), float(a[2] / n), float(a[3] / n));
	}
}
static f32x4 vq(Rng& r, float w, int lim = 24) { return f32x4(r.range(-lim, lim) / 4.0f, r.range(-lim, lim) / 4.0f, r.range(-lim, lim) / 4.0f, w); }
static f32x4 whole(Rng& r, int lim, float w) { return f32x4((float)r.range(-lim, lim), (float)r.range(-lim, lim), (float)r.range(-lim, lim), w); }

struct Model
{
	f32x4x4 m = f32x4x4::identity; bool rigid = true, built = false;
	bool onLattice() { const f32x4* c = &m.c0; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) { float x = c[i][k] * 4; if (k < 3) x = std::ldexp(x, -(i < 3 ? G : K)); if (!(std::fabs(x) <= 1600) || x != std::floor(x)) return false; } return true; }
	f32x4 sc(Rng& r, float w) { if (r.range(0, 3) == 0) return f32x4(1, 1, 1, w); float s[3]; for (auto& x : s) x = r.pick({ 1.0f, 2.0f, 3.0f, 0.5f, 4.0f, 1.0f }); if (r.coin()) s[1] = s[2] = s[0]; return f32x4(s[0], s[1], s[2], w); }
	void parts(Rng& r)
	{
		f32x4 t = vq(r, junk(r)), s = vq(r, junk(r)); quat h = hurwitz(r);
		t = by(t, K); s = by(s, G);
		Ev("xparts").a("t", lat(t, 3, K)).aa("T", latm(translate(t), 4, 4, K, 0)).a("s", lat(s, 3, G)).aa("S", latm(scale(s), 4, 4, 0, G)).a("h", halves(h)).aa("R", latm(rotate(h), 4, 4, 0, 0)).end();
	}
	void apply(int k, Rng& r)
	{
		static const char* names[] = { "mt", "tm", "ms", "sm", "mr", "rm" };
		f32x4 v = k < 2 ? vq(r, calm(r)) : sc(r, calm(r)); quat h = hurwitz(r);
		if (k >= 2 && k < 4 && r.range(0, 3) == 0) v = f32x4(-v.getX(), v.getY(), r.coin() ? 0.0f : v.getZ(), v.getW());
		int kv = k == 0 ? K - G : k == 1 ? K : 0; v = by(v, kv);
		switch (k)
		{
		case 0: m = translate(m, v); break;
		case 1: m = translate(v, m); break;
		case 2: m = scale(m, v); break;
		case 3: m = scale(v, m); break;
		case 4: m = m * rotate(h); break;
		default: m = rotate(h) * m; break;
		}
		if (k == 2 || k == 3) rigid = false;
		built = false;
		Ev("xapply").t("k", names[k]).a("v", lat(v, 3, kv)).a("h", halves(h)).aa("r", latm(m)).end();
	}
	void set(Rng& r)
	{
		f32x4 v = by(vq(r, junk(r)), K); setTranslation(m, v); built = false;
		Ev("xset").a("v", lat(v, 3, K)).aa("r", latm(m)).a("get", lat(getTranslation(m), 3, K)).end();
	}
	void calc(Rng& r)
	{
		unit(r); int g = G; G = 0;
		f32x4 t = by(vq(r, calm(r)), K); quat h = hurwitz(r); float f = r.pick({ 1.0f, 1.0f, 2.0f, 4.0f, 0.5f, 1048576.0f, 0x1p-20f }); quat n = quat((f32x4)h * f);
		f32x4 s = sc(r, r.pick({ 0.0f, 1.0f, 3.0f }));
		if (r.range(0, 7) == 0) { m = calcModel(t, n); s = f32x4(1, 1, 1, 1); }
		else if (r.range(0, 15) == 0) { m = calcModel(t); s = f32x4(1, 1, 1, 1); h = quat::identity; }
		else { G = g; s = by(s, G); m = calcModel(t, n, s); }
		rigid = G == 0 && s.getX() == 1 && s.getY() == 1 && s.getZ() == 1; built = true;
		Ev("xcalc").a("t", lat(t, 3, K)).a("h", halves(h)).a("s", lat(s, 3, G)).aa("r", latm(m)).end();
	}
	void point(Rng& r) { f32x4 v = by(vq(r, 1), K - G); Ev("xpoint").a("v", lat(v, 3, K - G)).a("r", lat(m * v, 3, K)).end(); }
	// a last element that is not one is kept
	void hom(Rng& r)
	{
		f32x4x4 h = m; int w = r.range(-3, 6); h.c3 = f32x4(m.c3, (float)w); f32x4 v = by(vq(r, calm(r)), K - G), s = sc(r, calm(r)), t = by(vq(r, junk(r)), K); f32x4x4 o = h; setTranslation(o, t);
		Ev("xhom").i("w", w).a("v", lat(v, 3, K - G)).a("s", lat(s, 3, 0)).a("t", lat(t, 3, K)).aa("mt", latm(translate(h, v))).aa("ms", latm(scale(h, s))).aa("sm", latm(scale(s, h))).aa("set", latm(o))
			.a("get", lat(getTranslation(h), 3, K)).end();
	}
	void get()
	{
		f32x4 p, s; quat q; extractTransform(m, p, q, s); f32x4x4 rot = extractRotation(m); float2 s2 = extractScale2(m);
		double u = std::ldexp(1024, -G);
		Ev("xget").a("pos", lat(getTranslation(m), 3, K)).a("pos2", lat(p, 3, K)).a("scale", un(extractScale(m), 3, u)).a("scale2", Ints{ encr(s2.x, u), encr(s2.y, u) })
			.a("scale3", un(s, 3, u)).aa("rot", unm(rot, 4096)).a("quat", un(extractQuat(rot), 4, 4096)).a("quat2", un(q, 4, 4096))
			.a("border", Ints{ e4(rot.c0.getW()), e4(rot.c1.getW()), e4(rot.c2.getW()), e4(rot.c3.getX()), e4(rot.c3.getY()), e4(rot.c3.getZ()), e4(rot.c3.getW()) }).end();
	}
	void solid()
	{
		f32x4 p; quat q; extractTransform(m, p, q); f32x4x4 o = extractRotationOnly(m);
		Ev("xrigid").aa("inv", latm(inverseTransRot(m))).aa("only", latm(o, 3, 3)).a("pos", lat(p, 3, K)).a("quat", un(q, 4, 4096))
			.a("border", Ints{ e4(o.c0.getW()), e4(o.c1.getW()), e4(o.c2.getW()), e4(o.c3.getX()), e4(o.c3.getY()), e4(o.c3.getZ()), e4(o.c3.getW()) }).end();
	}
	void random(Rng& r, int n)
	{
		rec.episode(); unit(r); calc(r);
		for (int s = 0; s < n; s++)
		{
			if (rec.events >= rec.perFile) { rec.open(); calc(r); }
			if (!onLattice()) calc(r);
			int k = r.range(0, 13);
			if (k < 6) apply(k, r); else if (k == 6) parts(r); else if (k == 7) set(r); else if (k < 10) { calc(r); get(); } else if (k < 12) { point(r); hom(r); }
			else if (!rigid) { calc(r); get(); }
			if (built) get();
			if (rigid) solid();
		}
	}
	void replay(const std::vector<int>& s, Rng& r)
	{
		rec.episode(); unit(r); calc(r);
		for (size_t k = 0; k < s.size(); k++)
		{
			if (!onLattice()) calc(r);
			if (s[k] < 6) apply(s[k], r); else if (s[k] == 6) { calc(r); get(); } else set(r);
			point(r); if (rigid) solid();
		}
	}
};
static void free_(Rng& r, int n)
{
	rec.episode();
	for (int i = 0; i < n; i++)
	{
		if (rec.events >= rec.perFile) rec.open();
		quat q = anyq(r); f32x4x4 R = rotate(q); unit(r); f32x4 v = by(whole(r, 9, calm(r)), K);
		Ev("xquat").a("q", un(q, 4, W)).aa("r", unm(R, W)).a("back", un(extractQuat(R), 4, W)).a("v", Ints{ enc(v[0], -K), enc(v[1], -K), enc(v[2], -K) }).a("qv", un(q * v, 3, 1024 / S)).a("vq", un(v * q, 3, 1024 / S)).end();
		f32x4 t = by(vq(r, 1), K), s = f32x4(r.range(1, 40) / 4.0f, r.range(1, 40) / 4.0f, r.range(1, 40) / 4.0f, 1), p, s2; quat b;
		if (r.range(0, 3) == 0) { s = f32x4(1, 1, 1, 1); G = 0; }
		s = by(s, G); f32x4x4 m = calcModel(t, q, s); extractTransform(m, p, b, s2); Ints sq; for (int k = 0; k < 3; k++) sq.push_back(enc(s[k], 2 - G));
		Ev("xfree").a("t", lat(t, 3, K)).a("pos", lat(p, 3, K)).a("q", un(q, 4, W)).a("back", un(b, 4, W)).a("s", sq).a("scale", un(s2, 3, std::ldexp(1024, -G))).end();
	}
}

//--------------------------------------------------------------------------------------------------------------------
struct Turn
{
	quat q = quat::identity;
	unsigned turns = 0;
	static quat q4(quat q, int k) { float f = std::ldexp(1.0f, k); return quat(q.getX() * f, q.getY() * f, q.getZ() * f, q.getW() * f); }
	static Ints e4s(quat q, int k = K) { Ints r; for (int i = 0; i < 4; i++) r.push_back(e4(q[i], k)); return r; }
	bool ok() { for (int i = 0; i < 4; i++) { float x = q[i] * 4 / S; if (!(std::fabs(x) <= 128) || x != std::floor(x)) return false; } return true; }
	void load(Rng& r)
	{
		unit(0, 0); q = r.range(0, 2) ? hurwitz(r) : quat(r.range(-12, 12) / 2.0f, r.range(-12, 12) / 2.0f, r.range(-12, 12) / 2.0f, r.range(-12, 12) / 2.0f);
		if (r.range(0, 19) == 0) q = quat();
		if (r.coin()) { unit(r); q = q4(q, K); }
		Ev("qload").a("p", e4s(q)).a("r", Ints{ e4(q.getX(), K), e4(q.getY(), K), e4(q.getZ(), K), e4(q.getW(), K) }).end();
	}
	void mul(quat b, bool keep, int kb)
	{
		if (keep) kb = 0; b = q4(b, kb);
		bool self = ++turns % 6 == 0; if (self) { b = q; keep = false; kb = K; } // the operand is the register itself
		quat p = q * b, c = q; quat& ref = c *= self ? c : b;
		Ev("qmul").a("b", e4s(b, kb)).a("r", e4s(p, K + kb)).a("c", e4s(c, K + kb)).b("refs", &ref == &c).i("keep", keep).end();
		if (keep) q = c;
	}
	void un1()
	{
		float n = dot4(q, q); quat z(0, 0, 0, 0), i = n == 0 ? z : inverse(q), u = n == 0 ? z : normalize(q);
		Ev("qun").a("conj", e4s(conjugate(q))).a("inv", un(i, 4, 4096 * S)).a("unit", un(u, 4, 4096)).i("len", encr(length4(q), 64 / S)).end();
	}
	// a quaternion of a length next to one is no unit quaternion
	static void almost(Rng& r)
	{
		Ints v; double n = 0; while (n < 1) { v.clear(); n = 0; for (int i = 0; i < 4; i++) { int c = r.range(0, 2) ? r.range(-9, 9) : 0; v.push_back(c); n += c * c; } }
		double by = (1 + (r.coin() ? 1 : -1) * std::ldexp(1, -r.range(4, 11))) / std::sqrt(n);
		quat x(float(v[0] * by), float(v[1] * by), float(v[2] * by), float(v[3] * by)), i = inverse(x); f32x4x4 m = calcModel(f32x4(1, 2, 3, 1), x), s = calcModel(f32x4(1, 2, 3, 1), x, f32x4(1, 2, 1, 1));
		s.c1 *= 0.5f;
		Ev("qnear").a("v", v).a("unit", un(normalize(x), 4, W)).a("ix", un(i * x, 4, W)).a("xi", un(x * i, 4, W)).aa("m", unm(m, W)).aa("s", unm(s, W)).end();
		f32x4 t = vq(r, calm(r)); float f = r.pick({ 1.0f, 1.0f, 2.0f, 0.5f }); x = quat((f32x4)x * f);
		Ev("qback").a("r", un(t * x, 3, 1024)).a("i", un(inverse(x) * t, 3, 1024)).end();
	}
	void turn(f32x4 v, int k) { v = by(v, k); Ev("qturn").a("v", lat(v, 3, k)).a("r", lat(q * v, 3, k)).a("ri", lat(v * q, 3, k)).end(); }
	static int other(Rng& r) { return r.coin() ? 0 : r.pick({ -30, -17, -9, 7, 15, 28 }); }
	void random(Rng& r, int n)
	{
		rec.episode(); load(r);
		for (int s = 0; s < n; s++)
		{
			if (rec.events >= rec.perFile) { rec.open(); load(r); }
			if (!ok()) load(r);
			switch (r.range(0, 6))
			{
			case 0: load(r); break;
			case 1: case 2: mul(hurwitz(r), r.range(0, 3), other(r)); break;
			case 3: mul(quat(r.range(-8, 8) / 4.0f, r.range(-8, 8) / 4.0f, r.range(-8, 8) / 4.0f, r.range(-8, 8) / 4.0f), r.range(0, 3) == 0, other(r)); break;
			case 4: un1(); almost(r); break;
			default: if (dot4(q, q) != 1) { unit(0, 0); q = hurwitz(r); Ev("qload").a("p", lat(q, 4)).a("r", lat(q, 4)).end(); } turn(vq(r, calm(r)), other(r));
			}
		}
	}
	void replay(const std::vector<int>& s, Rng& r)
	{
		rec.episode(); load(r);
		for (size_t k = 0; k < s.size(); k++)
		{
			if (!ok()) load(r);
			if (s[k] < 3) mul(hurwitz(r), true, 0); else if (s[k] == 3) mul(hurwitz(r), false, other(r)); else if (s[k] < 6) un1(); else if (dot4(q, q) == 1) { if (K) load(r); else turn(vq(r, calm(r)), other(r)); } else load(r);
		}
	}
};
static void arcs(Rng& r, int n)
{
	rec.episode();
	static const int ax[][4] = { { 1,0,0,1 }, { 0,1,0,1 }, { 0,0,-1,1 }, { 2,-1,2,3 }, { 2,3,6,7 }, { -6,2,3,7 }, { 3,-4,0,5 }, { 4,4,7,9 }, { 0,5,12,13 } };
	for (int i = 0; i < n; i++)
	{
		if (rec.events >= rec.perFile) rec.open();
		const int* a = ax[r.range(0, 8)]; int k = r.range(-48, 48); float d = (float)a[3];
		quat q(float(k * (M_PI / 12)), f32x4(a[0] / d, a[1] / d, a[2] / d, calm(r)));
		Ev("qaxis").a("ax", Ints{ a[0], a[1], a[2] }).i("n", a[3]).i("k", k).a("r", un(q, 4, W)).end();
		quat x = anyq(r), y = anyq(r);
		switch (r.range(0, 6))
		{
		case 0: y = x; break;
		case 1: y = quat(-(f32x4)x); break;
		case 2: { f32x4 t = (f32x4)x + f32x4(r.range(-12, 12) / 4096.0f, r.range(-12, 12) / 4096.0f, r.range(-12, 12) / 4096.0f, 0); y = normalize(quat(t)); break; }
		case 3: { f32x4 t = (f32x4)x + f32x4(r.range(-9, 9) / 64.0f, r.range(-9, 9) / 64.0f, 0, r.range(-9, 9) / 64.0f); y = normalize(quat(-t)); break; }
		default: break;
		}
		// opposite ends have no shorter arc
		Ints len; Cols p; for (int t = 0; t < 5; t++) {
			quat z = slerp(x, y, t / 4.0f); p.push_back(un(z, 4, W)); double n = -1; for (int k = 0; k < 4; k++) n += (double)z[k] * z[k]; len.push_back(encr(n, 1048576));
		}
		Ev("qslerp").a("a", un(x, 4, W)).a("b", un(y, 4, W)).aa("p", p).a("len", len).end();
	}
}

//--------------------------------------------------------------------------------------------------------------------
static void angle(Rng& r)
{
	float d[14]; for (auto& x : d) x = (float)r.range(-720, 720);
	Ints deg, rad, back; for (float x : d) deg.push_back((long long)x);
	unit(r); for (auto& x : d) x *= S;
	auto put = [&](double x, double b) { rad.push_back(encr(x, 65536 / S)); back.push_back(encr(b, 1024 / S)); };
	float s = radians(d[0]); put(s, degrees(s));
	float2 a = radians(float2(d[1], d[2])), a2 = degrees(a); for (int i = 0; i < 2; i++) put(a[i], a2[i]);
	float3 b = radians(float3(d[3], d[4], d[5])), b2 = degrees(b); for (int i = 0; i < 3; i++) put(b[i], b2[i]);
	float4 c = radians(float4(d[6], d[7], d[8], d[9])), c2 = degrees(c); for (int i = 0; i < 4; i++) put(c[i], c2[i]);
	f32x4 e = radians(f32x4(d[10], d[11], d[12], d[13])), e2 = degrees(e); for (int i = 0; i < 4; i++) put(e[i], e2[i]);
	Ev("xangle").a("deg", deg).a("rad", rad).a("back", back).end();
}
static void euler(int x, int y, int z)
{
	f32x4 a((float)(x * (M_PI / 12)), (float)(y * (M_PI / 12)), (float)(z * (M_PI / 12)), 0);
	quat q = fromEulerAngles(a); f32x4 e = q.extractEulerAngles(); quat g = fromEulerAngles(e); double u = 16 * 180 / M_PI;
	Ev("xeuler").a("a", Ints{ x, y, z }).a("q", un(q, 4, W)).a("again", un(g, 4, W)).a("e", un(e, 3, u))
		.a("each", Ints{ encr(q.extractPitch(), u), encr(q.extractYaw(), u), encr(q.extractRoll(), u) }).end();
}
// next to the poles: yaw a little short of a quarter turn, views close to up, and along up
static void poles(Rng& r)
{
	float rad = (float)(M_PI / 180), d = r.range(2, 60) / 100.0f; f32x4 a(r.range(-170, 170) * rad, (r.coin() ? 90 - d : d - 90) * rad, r.range(-170, 170) * rad, 0);
	quat q = fromEulerAngles(a), g = fromEulerAngles(q.extractEulerAngles()); Ev("xeulerp").a("q", un(q, 4, W)).a("again", un(g, 4, W)).end();
	int x, z; do { x = r.range(-25, 25); z = r.range(-25, 25); } while (x * x + z * z < 36); int y = r.coin() ? 1000 : -1000;
	f32x4 f = normalize3(f32x4((float)x, (float)y, (float)z, calm(r))); f32x4x4 m = rotate(f); quat l = lookAtQuat(f);
	Ev("xnear").a("f", Ints{ x, y, z }).aa("m", unm(m, W)).a("q", un(l, 4, W)).i("len", encr(length4(l), W)).end();
	f32x4 u = whole(r, 9, calm(r)); if (r.range(0, 2) == 0) u = f32x4(0, r.coin() ? 1.0f : -1.0f, 0, 0); if (dot3(u, u) == 0) return;
	f = normalize3(u); Ev("xalong").a("f", Ints{ enc(u[0]), enc(u[1]), enc(u[2]) }).a("q", un(normalize(u[0] == 0 && u[1] == 1 && u[2] == 0 ? lookAtQuat(f) : lookAtQuat(f, f)), 4, W)).end();
}
static void look(Rng& r)
{
	poles(r);
	f32x4 from, to, up;
	for (;;)
	{
		from = whole(r, 12, calm(r)); to = whole(r, 12, calm(r)); up = r.coin() ? f32x4(0, 1, 0, 0) : whole(r, 4, calm(r));
		if (r.range(0, 2) == 0) to = f32x4(from.getX(), from.getY(), from.getZ() + (r.coin() ? 5.0f : -5.0f), 0);
		f32x4 d = to - from, c = cross3(up, d); if (dot3(c, c) > 0.02f * dot3(up, up) * dot3(d, d)) break;
	}
	unit(r); f32x4 from1 = from, to1 = to, up1 = up; bool def = up == f32x4(0, 1, 0, 0) && r.coin();
	from = by(from, K); to = by(to, K); if (!def) up = by(up, G); f32x4 f = normalize3(to - from);
	f32x4x4 a = rotate(from, to, up), b = def ? rotate(f) : rotate(f, up), v = def ? lookAt(from, to) : lookAt(from, to, up);
	quat q = def ? lookAtQuat(f) : lookAtQuat(f, G < 0 ? up1 : up); // short directions are no up direction of a quaternion
	auto in = [](f32x4 v) { return Ints{ enc(v[0]), enc(v[1]), enc(v[2]) }; };
	auto edge = [](const f32x4x4& m) { return Ints{ e4(m.c0.getW()), e4(m.c1.getW()), e4(m.c2.getW()), e4(m.c3.getX()), e4(m.c3.getY()), e4(m.c3.getZ()), e4(m.c3.getW()) }; };
	Ints ve = edge(v); ve[3] = ve[4] = ve[5] = 0;
	Ev("xlook").a("from", in(from1)).a("to", in(to1)).a("up", in(up1)).aa("fromto", unm(a, W)).aa("front", unm(b, W)).aa("view", unm(v, W)).a("shift", un(v.c3, 3, 1024 / S))
		.a("quat", un(q, 4, W)).aa("border", Cols{ edge(a), edge(b), ve }).end();
}
int main(int argc, char** argv)
{
	Args g = init(argc, argv); Rng r(g.seed);
	if (g.mode == "model") Model().random(r, g.thorough ? 60000 : 6000);
	else if (g.mode == "modelreplay") { for (auto& s : readScript(g.script, "xform")) Model().replay(s, r); }
	else if (g.mode == "free") free_(r, g.thorough ? 30000 : 2000);
	else if (g.mode == "turn") Turn().random(r, g.thorough ? 60000 : 6000);
	else if (g.mode == "turnreplay") { for (auto& s : readScript(g.script, "xform")) Turn().replay(s, r); }
	else if (g.mode == "arcs") arcs(r, g.thorough ? 20000 : 1500);
	else if (g.mode == "euler")
	{
		rec.episode();
		for (int x = -12; x <= 12; x++) for (int y = -12; y <= 12; y++) for (int z = -12; z <= 12; z++)
		{
			if (!g.thorough && r.range(0, 3)) continue;
			if (rec.events >= rec.perFile) rec.open();
			euler(x, y, z);
		}
	}
	else { rec.episode(); for (int k = g.thorough ? 40000 : 3000; k > 0; k--) { if (rec.events >= rec.perFile) rec.open(); look(r); if (k % 8 == 0) angle(r); } }
	return 0;
}
