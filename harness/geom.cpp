// Records calls of the geometric primitives as traces of spec/Geometry.tla (coordinates on an integer lattice).
#include "h.hpp"
#include "math/aabb.hpp"
#include "math/sphere.hpp"
#include "math/plane.hpp"
#include "math/ray.hpp"
#include "math/line.hpp"
#include "math/triangle.hpp"
#include "math/matrix/projection.hpp"
#include "math/matrix/transform.hpp"
using namespace math; using namespace h;

static Rng r(1);
static float garbage() { return r.pick({ 0.0f, 1.0f, -7.0f, 1000.0f, -1e30f, 1e30f, 2.5f }); }
static f32x4 V(const Ints& v, int at = 0, float unit = 1.0f)
{ return f32x4(v[at] * unit, v[at + 1] * unit, v[at + 2] * unit, garbage()); }
static Ints E3(f32x4 v, int scale) { return { enc(v.getX(), scale), enc(v.getY(), scale), enc(v.getZ(), scale) }; }
static Ints R3(f32x4 v, double unit) { return { encr(v.getX(), unit), encr(v.getY(), unit), encr(v.getZ(), unit) }; }
// The unit of length of an episode is a power of two: no lattice argument knows how large the unit is.
static int K = 0, KD = 0; static float LS = 1.0f, DS = 1.0f;
static void unit(int k = INT_MIN)
{
	K = k != INT_MIN ? k : r.coin() ? 0 : r.pick({ -26, -20, -12, -6, 8, 14, 20 }); KD = k != INT_MIN || r.coin() ? 0 : r.pick({ -18, -10, 9, 17 });
	LS = std::ldexp(1.0f, K); DS = std::ldexp(1.0f, KD);
}
// a factor of a power of two makes the unit of everything it multiplies as much larger
static float rescale(bool divide = false)
{
	int e = r.coin() ? 0 : r.pick({ -22, -17, -9, -3, 4, 11, 19 }), to = divide ? K - e : K + e; if (std::abs(to) > 26) return 1.0f;
	K = to; LS = std::ldexp(1.0f, K); return std::ldexp(1.0f, e);
}
static f32x4 L(const Ints& v, int at = 0) { return V(v, at, LS); } // a length
static Ints EL(f32x4 v, int scale) { return E3(v, scale - K); }
static Ints RL(f32x4 v, double u) { return R3(v, u / LS); }
static Ints ints(int n, int lo, int hi) { Ints v; for (int i = 0; i < n; i++) v.push_back(r.range(lo, hi)); return v; }
static Ints boxInts(int lo, int hi)
{
	Ints v = ints(6, lo, hi);
	for (int i = 0; i < 3; i++) if (v[i] > v[i + 3]) std::swap(v[i], v[i + 3]);
	int f = r.range(0, 9); if (f < 3) v[f + 3] = v[f];
	return v;
}
static Aabb B(const Ints& v, float unit = 1.0f) { return Aabb(V(v, 0, unit), V(v, 3, unit)); }
static Ints cat(Ints a, const Ints& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

//-------------------------------------------------------------------------------------------- A01 box machine (unit 1/2)
static float U = 0.5f;
static Ints lim(float a, float b, float c) { Ints o; for (float x : { a, b, c }) o.push_back(x == FLT_MAX ? 5 : x == -FLT_MAX ? -5 : enc(x, 2)); return o; }
static void constant(const char* name, const Aabb& b)
{
	Ev("boxconst").t("name", name).a("lo", lim(b.getMin().getX(), b.getMin().getY(), b.getMin().getZ()))
		.a("hi", lim(b.getMax().getX(), b.getMax().getY(), b.getMax().getZ())).end();
}
static void observe(const char* op, const Aabb& b, int k, const Ints& a, int ret)
{
	f32x4 e, p; b.getExtent(e, p);
	Ev(op).i("k", k).a("a", a).i("ret", ret).a("lo", EL(b.getMin(), 1)).a("hi", EL(b.getMax(), 1))
		.a("size", EL(b.getSize(), 1)).a("pos2", EL(b.getPosition(), 2)).a("ext2", EL(b.getExtent(), 2))
		.a("ext2b", EL(e, 2)).a("pos2b", EL(p, 2)).i("area", enc(b.calcArea(), 2 - 2 * K)).i("vol", enc(b.calcVolume(), 3 - 3 * K)).end();
}
// the same corners with other unused lanes
static f32x4 again(f32x4 v) { return f32x4(v.getX(), v.getY(), v.getZ(), garbage()); }
static Aabb again(const Aabb& b) { return Aabb(again(b.getMin()), again(b.getMax())); }
static void queries(const Aabb& b, const Ints& c, const Ints& p)
{
	auto cb = B(c, U); auto q = V(p, 0, U); f32x4 lo = b.getMin(), hi = b.getMax(); int w = r.range(0, 5);
	if (w < 3) lo[w] -= U; else hi[w - 3] += U;
	Aabb off(lo, hi); // the box but for one coordinate
	Ev("boxq").a("c", c).a("p", p).b("in", isInside(b, q)).b("inb", isInside(b, cb)).b("meet", isIntersected(b, cb))
		.b("meet2", isIntersected(cb, b)).a("near", EL(closestPoint(b, q), 1))
		.b("eq", b == b).b("ne", b != b).b("eqc", again(b) == b && !(again(b) != b)).bs("eqo", { b == cb, b != cb, b == off, b != off }).end();
}
// returns the number of arguments of op code k, or performs it
static int argc_(int k) { switch (k) { case 1: case 2: case 5: case 6: case 8: case 10: return 6; default: return 3; } }
static bool apply(Aabb& b, int k, const Ints& a)
{
	int ret = 1;
	switch (k)
	{
	case 1: if (r.coin()) b.set(V(a, 0, U), V(a, 3, U)); else b = B(a, U); break;
	case 2: ret = b.trySet(V(a, 0, U), V(a, 3, U)); break;
	case 3: b.setMin(V(a, 0, U)); break;
	case 4: b.setMax(V(a, 0, U)); break;
	case 5: b.setSize(V(a, 0, U), V(a, 3, U)); break;
	case 6: { Ints h; for (int i = 0; i < 3; i++) h.push_back(a[i] / 2); b.setExtent(V(h, 0, U), V(a, 3, U)); } break;
	case 7: b.extend(V(a, 0, U)); break;
	case 8: b.extend(B(a, U)); break;
	case 9: b.shrink(V(a, 0, U)); break;
	case 10: b.shrink(B(a, U)); break;
	case 11: switch (r.range(0, 4)) { case 0: b.translate(V(a, 0, U)); break; case 1: b += V(a, 0, U); break; case 2: b = b + V(a, 0, U); break;
		case 3: b -= -V(a, 0, U); break; default: b = b - -V(a, 0, U); } break;
	case 12: { auto f = V(a, 0, rescale()); U = 0.5f * LS; switch (r.range(0, 2)) { case 0: b.scale(f); break; case 1: b *= f; break; default: b = b * f; } } break;
	case 13: { auto f = V(a, 0, rescale(true)); U = 0.5f * LS; if (r.coin()) b /= f; else b = b / f; } break;
	case 14: b.setSize(V(a, 0, U)); break;
	case 15: { Ints h; for (int i = 0; i < 3; i++) h.push_back(a[i] / 2); b.setExtent(V(h, 0, U)); } break;
	}
	observe("box", b, k, a, ret);
	return ret;
}
static void boxRandom(int episodes)
{
	for (int e = 0; e < episodes; e++)
	{
		rec.episode(); unit(); U = 0.5f * LS; Aabb b; observe("boxnew", b, 0, {}, 1);
		for (int n = 0; n < 12; n++)
		{
			Ints lo = EL(b.getMin(), 1), hi = EL(b.getMax(), 1); Ints a; int k = r.range(1, 15);
			int m = 0; for (int i = 0; i < 3; i++) m = std::max(m, (int)std::max(std::llabs(lo[i]), std::llabs(hi[i])));
			if (m > 60) k = 1;
			switch (k)
			{
			case 1: case 8: a = boxInts(-30, 30); break;
			case 2: a = r.coin() ? boxInts(-30, 30) : ints(6, -30, 30); break;
			case 3: for (int i = 0; i < 3; i++) a.push_back(hi[i] - r.range(0, 9)); break;
			case 4: for (int i = 0; i < 3; i++) a.push_back(lo[i] + r.range(0, 9)); break;
			case 5: case 6: a = ints(3, 0, 15); for (auto& x : a) x *= 2; a = cat(a, ints(3, -30, 30)); break;
			case 7: a = ints(3, -30, 30); break;
			case 9: for (int i = 0; i < 3; i++) a.push_back(r.range(lo[i], hi[i])); break;
			case 10: for (int i = 0; i < 3; i++) a.push_back(r.range(lo[i] - 5, hi[i])); for (int i = 0; i < 3; i++) a.push_back(r.range(std::max(lo[i], a[i]), hi[i] + 5)); break;
			case 11: a = ints(3, -20, 20); break;
			case 12: if (m > 20) continue; a = ints(3, 0, 3); break;
			case 13: { bool ok = true; for (int i = 0; i < 3; i++) { int d = r.pick({ 1, 2, 4 }); while ((lo[i] % d) || (hi[i] % d)) d /= 2; a.push_back(d); } } break;
			case 14: case 15: a = ints(3, 0, 15); for (auto& x : a) x *= 2; break;
			}
			apply(b, k, a);
			lo = EL(b.getMin(), 1); hi = EL(b.getMax(), 1);
			for (int q = r.range(1, 3); q > 0; q--)
			{
				// points and boxes near the faces
				Ints p; for (int i = 0; i < 3; i++) { int t = r.range(0, 5); p.push_back(t == 0 ? lo[i] : t == 1 ? hi[i] : t == 2 ? lo[i] - 1 : t == 3 ? hi[i] + 1 : r.range(lo[i], hi[i])); }
				Ints c, c2; for (int i = 0; i < 3; i++)
				{
					int x, y, t = r.range(0, 5);
					if (t == 0) { x = hi[i]; y = x + r.range(0, 3); } else if (t == 1) { y = lo[i]; x = y - r.range(0, 3); }
					else if (t == 2) { x = hi[i] + 1; y = x + r.range(0, 3); } else if (t == 3) { y = lo[i] - 1; x = y - r.range(0, 3); }
					else if (t == 4) { x = lo[i]; y = hi[i]; } else { x = r.range(lo[i], hi[i]); y = r.range(x, hi[i]); }
					if (r.range(0, 2) == 0) { x = r.range(lo[i], hi[i]); y = r.range(x, hi[i]); }
					c.push_back(x); c2.push_back(y);
				}
				queries(b, cat(c, c2), p);
			}
		}
	}
}
// Boxes without some of their faces: half spaces, slabs, quarters and the whole space. Such a face is at Far.
static const int Far = 10000;
static Aabb openBox(const Ints& b, float u, float inf)
{
	float f[6]; for (int i = 0; i < 6; i++) f[i] = b[i] == Far ? inf : b[i] == -Far ? -inf : b[i] * u;
	return Aabb(f32x4(f[0], f[1], f[2], garbage()), f32x4(f[3], f[4], f[5], garbage()));
}
static Ints openInts() { Ints b = boxInts(-9, 9); int m = r.range(0, 2); for (int i = 0; i < 6; i++) if (m == 2 || r.range(0, m + 1) == 0) b[i] = i < 3 ? -Far : Far; return b; }
static Ints openFaces(const Aabb& b)
{
	Ints o; for (auto v : { b.getMin(), b.getMax() }) for (int i = 0; i < 3; i++) o.push_back(std::fabs(v[i]) >= FLT_MAX ? (v[i] < 0 ? -Far : Far) : enc(v[i], -K));
	return o;
}
static void openBoxes(int n)
{
	for (int e = 0; e < n; e++)
	{
		if (e % 50 == 0) rec.episode();
		unit(); float inf = r.coin() ? INFINITY : FLT_MAX; Ints b = openInts(), c = r.coin() ? openInts() : boxInts(-12, 12), p = ints(3, -12, 12);
		Aabb x = openBox(b, LS, inf), y = openBox(c, LS, inf), ep = x, ec = x, sc = x; ep.extend(L(p)); ec.extend(y); sc.shrink(y);
		Ev("open").a("b", b).a("c", c).a("p", p).b("in", isInside(x, L(p))).b("inb", isInside(x, y)).b("meet", isIntersected(x, y)).b("meet2", isIntersected(y, x))
			.a("near", EL(closestPoint(x, L(p)), 0)).a("ep", openFaces(ep)).a("ec", openFaces(ec)).a("sc", openFaces(sc)).b("eq", x == y).b("ne", x != y).end();
	}
}
static void openRay()
{
	Ints b = openInts(), o = ints(3, -30, 30), d; do { d.clear(); for (int i = 0; i < 3; i++) d.push_back(r.pick({ 0, 0, 1, 2, 4, 8, 16, -1, -2, -4, -8, -16 })); } while (!d[0] && !d[1] && !d[2]);
	for (int i = 0; i < 3; i++) if (r.coin()) { int t = b[i + 3 * r.range(0, 1)]; if (std::abs(t) != Far) o[i] = t; }
	unit(); auto box = openBox(b, LS, r.coin() ? INFINITY : FLT_MAX); Ray ray(L(o), V(d, 0, 0.125f * DS), false), inv; inv.origin = ray.origin; inv.setDirection(f32x4::one / ray.getDirection(), false);
	Ev("openray").a("b", b).a("o", o).a("d", d).bs("hit", { raycast(box, ray), raycastI(box, inv), isAabbIntersected(raycast2(box, ray)), raycast1(box, ray) < FLT_MAX }).end();
}
static void boxReplay(const char* script)
{
	for (auto& v : readScript(script, "aabb"))
	{
		rec.episode(); unit(); U = 0.5f * LS; Aabb b; observe("boxnew", b, 0, {}, 1);
		for (size_t i = 0; i < v.size(); )
		{
			int k = v[i++]; Ints a(v.begin() + i, v.begin() + i + argc_(k)); i += argc_(k);
			apply(b, k, a); queries(b, boxInts(-1, 3), ints(3, -1, 3));
		}
	}
}
//-------------------------------------------------------------------------------------------- A02 rays against boxes
static long long lim1(float x, int scale) { return x == FLT_MAX ? 5000001 : x == -FLT_MAX ? -5000001 : enc(x, scale); }
static long long limr(float x, double unit) { return x == FLT_MAX ? 5000001 : x == -FLT_MAX ? -5000001 : encr(x, unit); }
static void ray1(const Ints& b, const Ints& o, const Ints& d)
{
	// exact: the direction is d / 8 with every d zero or a power of two
	unit(); auto box = B(b, LS); Ray ray(L(o), V(d, 0, 0.125f * DS), false), again; again.origin = ray.origin; again.setDirection(V(d, 0, 0.125f * DS), false);
	if (r.coin()) ray = again;
	auto par = (u32x4)ray.getParallel();
	auto t = raycast2(box, ray); float t1 = raycast1(box, ray);
	Ray inv; inv.origin = ray.origin; inv.setDirection(f32x4::one / ray.getDirection(), false);
	auto ti = raycast2I(box, inv); float ti1 = raycast1I(box, inv);
	Ev("ray").a("b", b).a("o", o).a("d", d).i("len", 0).a("par", { par.getX() != 0, par.getY() != 0, par.getZ() != 0 })
		.a("t", { lim1(t.x, 5 - K + KD), lim1(t.y, 5 - K + KD) }).i("t1", lim1(t1, 5 - K + KD)).a("ti", { lim1(ti.x, 5 - K + KD), lim1(ti.y, 5 - K + KD) }).i("ti1", lim1(ti1, 5 - K + KD))
		.b("hit", raycast(box, ray)).b("hiti", raycastI(box, inv)).b("hit2", isAabbIntersected(t)).end();
}
static void ray2(const Ints& b, const Ints& o, const Ints& d, int len)
{
	// normalized direction d / len
	unit(); auto box = B(b, LS); auto dv = V(d, 0, DS); dv.setW(r.pick({ 0.0f, 3.0f })); Ray ray(L(o), dv);
	if (r.coin()) { ray = Ray(); ray.origin = L(o); ray.setDirection(dv); }
	auto par = (u32x4)ray.getParallel();
	auto t = raycast2(box, ray); float t1 = raycast1(box, ray);
	Ray inv; inv.origin = ray.origin; inv.setDirection(f32x4::one / ray.getDirection(), false);
	auto ti = raycast2I(box, inv); float ti1 = raycast1I(box, inv);
	const double S = 1024 / LS;
	Ev("ray").a("b", b).a("o", o).a("d", d).i("len", len).a("par", { par.getX() != 0, par.getY() != 0, par.getZ() != 0 })
		.a("t", { limr(t.x, S), limr(t.y, S) }).i("t1", limr(t1, S)).a("ti", { limr(ti.x, S), limr(ti.y, S) }).i("ti1", limr(ti1, S))
		.b("hit", raycast(box, ray)).b("hiti", raycastI(box, inv)).b("hit2", isAabbIntersected(t)).end();
}
static void rayhist()
{
	Ints o = ints(3, -4, 4), d; do { d = ints(3, -2, 2); } while (!d[0] && !d[1] && !d[2]);
	auto nonzero = [](f32x4 v) { return v.getX() != 0 || v.getY() != 0 || v.getZ() != 0; };
	unit(); Ray ray(L(o), V(d), false); std::vector<const char*> ks; Ints vs, lens; bool kept = true; int divs = 0, muls = 0;
	for (int n = r.range(1, 7); n > 0; n--)
	{
		int k = r.range(0, 5); bool fresh = r.coin(); Ints v = ints(3, -3, 3); auto w = V(v), was = ray.getDirection(); bool one = k == 5;
		if (k == 0)
		{
			if (!v[0] && !v[1] && !v[2]) continue;
			bool unit = one = r.coin(); if (unit) w = w * r.pick({ 1.0f, 1.0f, std::ldexp(1.0f, -69), std::ldexp(1.0f, 40) }); // the length does not matter
			if (fresh) { auto at = ray.origin; ray = Ray(at, w, unit); } else ray.setDirection(w, unit);
			ks.push_back("set");
		}
		else if (k == 1) { if (fresh) ray = ray + w * LS; else ray += w * LS; ks.push_back("add"); }
		else if (k == 2) { if (fresh) ray = ray - w * LS; else ray -= w * LS; ks.push_back("sub"); }
		else if (k == 3)
		{
			for (auto& x : v) x = r.pick({ 1, 1, -1, 2, -2, 0 }); w = V(v); w.setW(1.0f);
			if (++muls > 3 || !nonzero(ray.getDirection() * w)) continue;
			w = w * rescale(); w.setW(1.0f);
			if (fresh) ray = ray * w; else ray *= w;
			ks.push_back("mul");
		}
		else if (k == 4)
		{
			for (auto& x : v) x = r.pick({ 1, -1, 2, -2 }); if (++divs > 4) continue;
			w = V(v, 0, rescale(true)); w.setW(1.0f);
			if (fresh) ray = ray / w; else ray /= w;
			ks.push_back("div");
		}
		else { ray.normalize(); ks.push_back("norm"); }
		auto now = ray.getDirection();
		if (k == 1 || k == 2) for (int i = 0; i < 3; i++) kept = kept && now[i] == was[i];
		if (one) lens.push_back(encr(std::sqrt((double)now[0] * now[0] + (double)now[1] * now[1] + (double)now[2] * now[2]), 4096));
		vs.insert(vs.end(), v.begin(), v.end());
	}
	if (ks.empty()) return;
	auto dir = ray.getDirection(), at = ray.origin; float m = 0; for (int i = 0; i < 3; i++) m = std::max(m, std::fabs(dir[i]));
	Ints b; float t = r.range(-1, 3) / m; // a box around a point of the ray, or next to it
	for (int i = 0; i < 3; i++) { int c = (int)std::lround(at[i] / LS + t * dir[i]) + (r.range(0, 4) ? 0 : r.range(-3, 3)); b.push_back(c - r.range(0, 2)); }
	for (int i = 0; i < 3; i++) b.push_back(b[i] + r.range(0, 3));
	for (auto x : b) if (std::llabs(x) > 200) return;
	// the fourth lane is nobody's business: a ray made afresh gets the one of this ray
	Ray fresh(at, dir, false); auto par = (u32x4)ray.getParallel(); auto fpar = (u32x4)fresh.getParallel();
	bool same = true; for (int i = 0; i < 3; i++) same = same && par[i] == fpar[i];
	Ev("rayhist").b("kept", kept).a("lens", lens).l("ks", ks).a("vs", vs).a("o", o).a("d", d).a("fo", EL(at, 4)).a("fd", R3(dir / m, 1024)).a("par", { par.getX() != 0, par.getY() != 0, par.getZ() != 0 })
		.b("fresh", same && ray == Ray(ray) && ray == Ray(again(at), again(dir), false) && ray != Ray(again(at + f32x4(0, LS, 0, 0)), dir, false)).a("b", b).b("hit", raycast(B(b, LS), ray)).end();
}
static void rays(int n)
{
	static const int quad[][4] = { { 1, 0, 0, 1 }, { 0, 5, 0, 5 }, { 3, 4, 0, 5 }, { 1, 2, 2, 3 }, { 2, 3, 6, 7 }, { 1, 4, 8, 9 }, { 4, 4, 7, 9 }, { 0, 12, 5, 13 }, { 2, 6, 9, 11 }, { 2, 10, 11, 15 }, { 2, 5, 14, 15 } };
	for (int e = 0; e < n; e++)
	{
		if (e % 50 == 0) rec.episode();
		if (e % 4 == 0) openRay();
		Ints b = boxInts(-12, 12), o;
		for (int i = 0; i < 3; i++) { int t = r.range(0, 6); o.push_back(t == 0 ? b[i] : t == 1 ? b[i + 3] : t == 2 ? r.range(b[i], b[i + 3]) : r.range(-30, 30)); }
		if (e & 1)
		{
			Ints d; do { d.clear(); for (int i = 0; i < 3; i++) d.push_back(r.pick({ 0, 0, 1, 2, 4, 8, 16, 32, -1, -2, -4, -8, -16, -32 })); } while (!d[0] && !d[1] && !d[2]);
			if (r.coin()) // aim at a point of the box: o = point - k d
			{
				int k = r.range(-1, 6);
				for (int i = 0; i < 3; i++) { int t = r.range(0, 2); int tgt = t == 0 ? b[i] : t == 1 ? b[i + 3] : r.range(b[i], b[i + 3]); o[i] = tgt - k * d[i] / 8; }
				for (auto& x : o) x = std::max(-200ll, std::min(200ll, x));
			}
			ray1(b, o, d);
		}
		else
		{
			auto q = quad[r.range(0, 10)]; Ints d = { q[0], q[1], q[2] };
			std::swap(d[0], d[r.range(0, 2)]); std::swap(d[1], d[r.range(1, 2)]); for (auto& x : d) if (r.coin()) x = -x;
			if (r.range(0, 3)) { int k = r.range(-1, 4); for (int i = 0; i < 3; i++) o[i] = r.range(b[i], b[i + 3]) - k * d[i]; }
			ray2(b, o, d, q[3]);
		}
	}
	rec.episode();
	struct { const char* n; const Ray* v; } cs[] = { { "left", &Ray::left }, { "right", &Ray::right }, { "bottom", &Ray::bottom }, { "top", &Ray::top }, { "back", &Ray::back }, { "front", &Ray::front } };
	for (auto& c : cs) Ev("rayconst").t("name", c.n).a("o", E3(c.v->origin, 0)).a("d", E3(c.v->getDirection(), 0)).end();
	for (int e = 0; e < 60; e++)
	{
		auto q = quad[r.range(0, 10)]; Ints d = { q[0], q[1], q[2] };
		for (int k = 0; k < 8; k++) rayhist();
		unit(); float nf = r.coin() ? DS : float((1 + (r.coin() ? 1 : -1) * std::ldexp(1, -r.range(5, 8))) / q[3]); // or next to one already
		Ray ray(V({ 1, 2, 3 }), V(d, 0, nf), false), set; set.setDirection(V(d, 0, nf)); ray.normalize();
		Ev("raynorm").a("d", d).i("len", q[3]).a("u", R3(ray.getDirection(), 4096)).a("u2", R3(set.getDirection(), 4096)).a("u3", R3(Ray(V({ 1, 2, 3 }), V(d, 0, nf)).getDirection(), 4096)).end();
	}
}
//-------------------------------------------------------------------------------------------- A03 triangles against boxes
static void tri(const Ints& pos, const Ints& ext, const Ints& t)
{
	unit(); Triangle tr(L(t, 0), L(t, 3), L(t, 6));
	Ev("tribox").a("pos", pos).a("ext", ext).a("t", t).b("hit", isAabbIntersected(L(pos), L(ext), tr)).end();
}
static void tris(int n)
{
	for (int e = 0; e < n; e++)
	{
		if (e % 50 == 0) rec.episode();
		Ints pos = ints(3, -4, 4), ext = ints(3, 0, 4);
		int style = r.range(0, 3), m = r.pick({ 2, 4, 8, 12 }); Ints t = ints(9, -m, m);
		if (style == 0) // close to a corner or an edge of the box
			for (int k = 0; k < 3; k++) { Ints c; for (int i = 0; i < 3; i++) c.push_back((r.coin() ? 1 : -1) * ext[i] + r.range(-1, 1)); for (int i = 0; i < 3; i++) t[k * 3 + i] = c[i] * (r.range(0, 3) ? 1 : 2); }
		if (style == 1) for (int i = 6; i < 9; i++) t[i] = r.coin() ? t[i - 3] : t[i - 6] + (t[i - 3] - t[i - 6]) * 2; // slivers and degenerate ones
		for (int k = 0; k < 9; k++) t[k] += pos[k % 3];
		tri(pos, ext, t);
	}
}
static void trisReplay(const char* script)
{
	int e = 0;
	for (auto& v : readScript(script, "tri"))
	{
		if (e++ % 50 == 0) rec.episode();
		Ints q(v.begin(), v.end()); // pos 3, ext 3, triangle 9
		tri(Ints(q.begin(), q.begin() + 3), Ints(q.begin() + 3, q.begin() + 6), Ints(q.begin() + 6, q.end()));
	}
}
//-------------------------------------------------------------------------------------------- A04 frustum culling
static Plane P(const Ints& p) { auto n = V(p, 0, DS); float d = p[3] * LS * DS; Plane q; q.setNormal(n, false); q.setDistance(d); return r.coin() ? q : Plane(n, d, false); }
static void frusta(int n)
{
	for (int e = 0; e < n; e++)
	{
		if (e % 50 == 0) rec.episode();
		unit(); Ints b = boxInts(-9, 9); std::vector<Ints> pl; std::vector<Plane> ps;
		bool withModel = r.coin(); std::vector<Ints> m = { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 } }; // rows
		if (withModel) for (auto& row : m) { row = ints(3, -2, 2); row.push_back(r.range(-6, 6)); }
		for (int k = r.range(0, 6); k > 0; k--)
		{
			Ints p = r.coin() ? ints(3, -2, 2) : Ints{ 0, 0, 0 }; if (!p[0] && !p[1] && !p[2]) p[r.range(0, 2)] = r.coin() ? 1 : -1;
			p.push_back(r.range(-30, 30));
			if (r.coin()) // through a corner, so that exactly that one decides
			{
				Ints c; for (int i = 0; i < 3; i++) c.push_back(b[i + (r.coin() ? 3 : 0)]);
				Ints t; for (int i = 0; i < 3; i++) t.push_back(m[i][0] * c[0] + m[i][1] * c[1] + m[i][2] * c[2] + m[i][3]);
				p[3] = -(p[0] * t[0] + p[1] * t[1] + p[2] * t[2]) + r.range(-1, 1);
			}
			pl.push_back(p); ps.push_back(P(p));
		}
		bool ret;
		if (withModel)
		{
			f32x4x4 M(f32x4(m[0][0], m[1][0], m[2][0], 0), f32x4(m[0][1], m[1][1], m[2][1], 0), f32x4(m[0][2], m[1][2], m[2][2], 0), f32x4(m[0][3] * LS, m[1][3] * LS, m[2][3] * LS, 1));
			ret = isBehindFrustum(ps.data(), (uint8)ps.size(), B(b, LS), M);
		}
		else ret = isBehindFrustum(ps.data(), (uint8)ps.size(), B(b, LS));
		Ev("cull").a("b", b).aa("m", m).aa("planes", pl).b("behind", ret).end();
	}
}
//-------------------------------------------------------------------------------------------- G01 planes
static void planes(int n)
{
	struct { const char* n; const Plane* v; } cs[] = { { "left", &Plane::left }, { "right", &Plane::right }, { "bottom", &Plane::bottom }, { "top", &Plane::top }, { "back", &Plane::back }, { "front", &Plane::front } };
	rec.episode();
	for (auto& c : cs) Ev("planeconst").t("name", c.n).a("n", E3(c.v->getNormal(), 0)).i("d", enc(c.v->getDistance())).end();
	for (int e = 0; e < n; e++)
	{
		if (e % 50 == 0) rec.episode();
		unit(); Ints p = ints(3, -5, 5); if (!p[0] && !p[1] && !p[2]) p[0] = 1; p.push_back(r.range(-20, 20));
		Ints q = ints(3, -12, 12); auto pl = P(p);
		// stored values, distance
		Ev("plane").a("p", p).a("q", q).i("dist", enc(distance3(pl, L(q)), -K - KD)).a("n", E3(pl.getNormal(), -KD)).i("d", enc(pl.getDistance(), -K - KD)).end();
		{ Ints o = p; if (r.coin()) o[r.range(0, 3)] += 1; auto z = [](int v) { return v || r.coin() ? (float)v : -0.0f; };
			Plane x(f32x4(z(p[0]) * DS, z(p[1]) * DS, z(p[2]) * DS, garbage()), z(p[3]) * DS * LS, false), y(f32x4(z(o[0]) * DS, z(o[1]) * DS, z(o[2]) * DS, garbage()), z(o[3]) * DS * LS, false);
			Ev("sameplane").a("x", p).a("y", o).b("eq", x == y).b("ne", x != y).end(); }
		// normalization by the three routes: the plane as a set must not change
		// some normals have a length next to one already
		float nf = r.range(0, 2) ? DS : float((1 + (r.coin() ? 1 : -1) * std::ldexp(1, -r.range(5, 10))) / std::sqrt(double(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])));
		if (nf != DS) pl = Plane(V(p, 0, nf), p[3] * nf * LS, false);
		Plane a = pl, arr[3] = { pl, pl, pl }; a.normalize(); normalizePlanes(arr, 2);
		Ev("planenorm").a("p", p).a("n", R3(a.getNormal(), 8192)).i("d", encr(a.getDistance(), 8192 / LS))
			.a("n2", R3(arr[1].getNormal(), 8192)).i("d2", encr(arr[1].getDistance(), 8192 / LS)).b("rest", arr[2] == pl).end();
		Plane c(V(p, 0, nf), p[3] * LS); Plane s(f32x4(0, 0, 1, 0), p[3] * LS); s.setNormal(V(p, 0, nf));
		Ev("planeunit").a("p", p).a("n", R3(c.getNormal(), 8192)).i("d", enc(c.getDistance(), -K)).a("n2", R3(s.getNormal(), 8192)).i("d2", enc(s.getDistance(), -K)).end();
		{	// corners on one line still lie on the plane, whichever it is
			Ints fd = ints(3, -3, 3), f = ints(3, -6, 6); int i0 = r.range(-3, 3), j0 = r.range(-3, 3);
			for (int w : { i0, j0 }) for (int i = 0; i < 3; i++) f.push_back(f[i] + w * fd[i]);
			Plane fp(Triangle(L(f), L(f, 3), L(f, 6)));
			Ev("planeflat").a("t", f).a("dist", { encr(distance3(fp, L(f)), 1024 / LS), encr(distance3(fp, L(f, 3)), 1024 / LS), encr(distance3(fp, L(f, 6)), 1024 / LS) }).end();
		}
		// a plane from a triangle
		Ints t; Ints nrm;
		do
		{
			t = ints(9, -6, 6); Ints u, v; for (int i = 0; i < 3; i++) { u.push_back(t[3 + i] - t[i]); v.push_back(t[6 + i] - t[i]); }
			nrm = { u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0] };
		} while (!nrm[0] && !nrm[1] && !nrm[2]);
		Plane tp(Triangle(L(t, 0), L(t, 3), L(t, 6)));
		Ev("planetri").a("t", t).a("n", R3(tp.getNormal(), 8192)).a("dist", { encr(distance3(tp, L(t, 0)), 1024 / LS), encr(distance3(tp, L(t, 3)), 1024 / LS), encr(distance3(tp, L(t, 6)), 1024 / LS) }).end();
		// closest point on a unit plane
		Ev("planenear").a("p", p).a("q", q).a("c", RL(closestPoint(a, L(q)), 256)).end();
	}
}
//-------------------------------------------------------------------------------------------- G02 points, lines, rays, spheres, triangles
static void points(int n)
{
	rec.episode();
	struct { const char* n; const Sphere* v; } ss[] = { { "one", &Sphere::one }, { "two", &Sphere::two }, { "half", &Sphere::half } };
	for (auto& c : ss) Ev("sphereconst").t("name", c.n).a("c", E3(c.v->getPosition(), 0)).i("r", enc(c.v->getRadius(), 2)).end();
	{ Sphere z; Ev("sphereconst").t("name", "default").a("c", E3(z.getPosition(), 0)).i("r", enc(z.getRadius(), 2)).end(); }
	struct { const char* n; const Ray* v; } rs[] = { { "left", &Ray::left }, { "right", &Ray::right }, { "bottom", &Ray::bottom }, { "top", &Ray::top }, { "back", &Ray::back }, { "front", &Ray::front } };
	for (auto& c : rs) Ev("rayconst").t("name", c.n).a("o", E3(c.v->origin, 0)).a("d", E3(c.v->getDirection(), 0)).end();
	for (int e = 0; e < n; e++)
	{
		if (e % 50 == 0) rec.episode();
		unit(); Ints q = ints(3, -12, 12), a = ints(3, -10, 10), b; do { b = ints(3, -10, 10); } while (a == b);
		if (r.range(0, 3) == 0) { int k = r.range(-2, 3); for (int i = 0; i < 3; i++) q[i] = a[i] + k * (b[i] - a[i]); } // on the carrier
		Ints d; for (int i = 0; i < 3; i++) d.push_back(b[i] - a[i]);
		float t = -1;
		Line ln(L(a), L(b));
		Ev("nearline").a("a", a).a("b", b).a("q", q).a("c", RL(closestPoint(ln, L(q)), 256)).a("c2", RL(closestPoint(ln, L(q), t), 256))
			.i("t", encr(t, 256)).a("dir", EL(ln.getDirection(false), 0)).a("unit", R3(ln.getDirection(), 4096)).end();
		{	// a segment of no length: its only point is the closest one
			Line dot(L(a), L(a)); float u = -7;
			Ev("neardot").a("a", a).a("c", RL(closestPoint(dot, L(q)), 256)).a("c2", RL(closestPoint(dot, L(q), u), 256)).b("t", u >= 0.0f && u <= 1.0f).end();
		}
		Ray ray(L(a), V(d, 0, DS), r.coin());
		Ev("nearray").a("o", a).a("d", d).a("q", q).a("c", RL(closestPoint(ray, L(q)), 256)).end();
		{	// the same ray far away: only what is relative to its origin counts
			Ints far = ints(3, -4, 4), d3, q3 = ints(3, -300, 300), e3; do { d3 = ints(3, -3, 3); } while (!d3[0] && !d3[1] && !d3[2]);
			int sc = 1 << r.range(0, 18); for (auto& x : far) x *= sc; for (int i = 0; i < 3; i++) e3.push_back(far[i] + q3[i]);
			Ray fr(L(far), V(d3, 0, DS), r.coin());
			Ev("farray").a("q", q3).a("d", d3).a("c", RL(closestPoint(fr, L(e3)) - L(far), 8)).end();
		}
		int rad = r.range(0, 9); Sphere s(rad * LS, L(a)); if (r.coin()) { s = Sphere(); s.setPosition(L(a)); s.setRadius(rad * LS); }
		Ints p2 = ints(3, -10, 10); if (r.coin()) { static const int quad[][4] = { { 3, 4, 0, 5 }, { 1, 2, 2, 3 }, { 2, 3, 6, 7 }, { 1, 4, 8, 9 }, { 4, 0, 0, 4 }, { 0, 0, 0, 0 } }; auto z = quad[r.range(0, 5)]; for (int i = 0; i < 3; i++) p2[i] = a[i] + z[i]; }
		int rad2 = r.range(0, 5); Ints bx = boxInts(-9, 9);
		if (r.coin()) for (int i = 0; i < 3; i++) { bx[i] = p2[i] - (p2[i] <= a[i] ? r.range(0, 3) : 0); bx[i + 3] = p2[i] + (p2[i] >= a[i] ? r.range(0, 3) : 0); if (p2[i] < a[i]) bx[i + 3] = p2[i]; }
		Ev("sphere").a("c", a).i("r", rad).a("p", p2).i("r2", rad2).a("b", bx).a("pos", EL(s.getPosition(), 0)).i("rad", enc(s.getRadius(), -K))
			.b("in", isInside(s, L(p2))).b("meet", isIntersected(s, Sphere(rad2 * LS, L(p2)))).b("meetb", isIntersected(s, B(bx, LS))).end();
		if (a != p2 && rad) Ev("nearsphere").a("c", a).i("r", rad).a("q", p2).a("n", RL(closestPoint(s, L(p2)), 256)).end();
		{	// seen from its center every point of a sphere is equally close
			f32x4 w = closestPoint(s, L(a)) - L(a);
			Ev("centersphere").i("r", rad).a("n", RL(w, 256)).end();
		}
		{	// points as far as the radius are not inside, ones closer by the smallest step are
			Ints ax = { 0, 0, 0 }; int w = r.range(0, 2); ax[w] = r.coin() ? 1 : -1; float big = (1 << r.range(0, 10)) * LS; Sphere t(big, f32x4::zero);
			auto at = [&](float x) { return isInside(t, f32x4(ax[0] * x, ax[1] * x, ax[2] * x, garbage())); };
			Ev("sphererim").b("below", at(std::nextafter(big, 0.0f))).b("on", at(big)).b("above", at(std::nextafter(big, FLT_MAX)))
				.b("eq", t == Sphere(big, f32x4(-0.0f, 0, 0, 0)) && !(t != Sphere(big))).b("ne", t != Sphere(big * 2) && !(t == Sphere(big * 2)) && t != Sphere(big, f32x4(LS, 0, 0, 0))).end();
		}
		{	// moving and scaling rays
			Ints v = ints(3, 1, 3), o2 = a, d2 = d; const char* nm[] = { "+", "-", "*", "/" }; int k = r.range(0, 3);
			for (auto& x : v) { if (k == 3) x = 1 << (x - 1); if (r.coin()) x = -x; }
			Ray base(L(o2), V(d2), false), x = base, y = base; int k0 = K; auto w = k < 2 ? L(v) : V(v, 0, rescale(k == 3)); if (k == 3) w.setW(1.0f);
			if (k == 0) { x += w; y = base + w; } if (k == 1) { x -= w; y = base - w; } if (k == 2) { x *= w; y = base * w; } if (k == 3) { x /= w; y = base / w; }
			float lx = 0, ly = 0; for (int i = 0; i < 3; i++) { lx = std::max(lx, std::fabs(x.getDirection()[i])); ly = std::max(ly, std::fabs(y.getDirection()[i])); }
			Ev("rayop").t("k", nm[k]).a("v", v).a("o", o2).a("d", d2).a("ox", EL(x.origin, 2)).a("oy", EL(y.origin, 2))
				.a("dx", E3(x.getDirection(), 2 - (K - k0))).a("dy", R3(y.getDirection() / ly, 1024)).b("eq", base == Ray(base) && !(base != Ray(base))).end();
			K = k0; LS = std::ldexp(1.0f, K);
		}
		// triangles
		Ints tr, nrm;
		do
		{
			tr = ints(9, -6, 6); for (auto& x : tr) x *= 4; Ints u, v; for (int i = 0; i < 3; i++) { u.push_back(tr[3 + i] - tr[i]); v.push_back(tr[6 + i] - tr[i]); }
			nrm = { u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0] };
		} while (std::llabs(nrm[0]) + std::llabs(nrm[1]) + std::llabs(nrm[2]) < 64);
		Triangle T(L(tr, 0), L(tr, 3), L(tr, 6)); int i0 = r.range(-4, 8), j0 = r.range(-4, 8); if (r.range(0, 2) == 0) { int w = r.range(0, 2); if (w == 0) i0 = 0; else if (w == 1) j0 = 0; else j0 = 4 - i0; }
		Ints pt; for (int i = 0; i < 3; i++) pt.push_back(tr[i] + (i0 * (tr[3 + i] - tr[i]) + j0 * (tr[6 + i] - tr[i])) / 4);
		Ev("tripoint").a("t", tr).a("p", pt).a("ij", { i0, j0 }).b("in", isInside(T, L(pt))).a("bary", R3(calcBarycentric(T, L(pt)), 1024)).end();
		{	// equality looks at every point
			auto v0 = [](const Ints& v, int at = 0) { return L(v, at); }; Ints ch; int w = r.range(0, 14);
			Ints all = cat(cat(a, b), tr), oth = all; if (r.coin()) oth[w] += r.coin() ? 1 : -1;
			Line l1(v0(all), v0(all, 3)), l2(v0(oth), v0(oth, 3)); Triangle t1(v0(all, 6), v0(all, 9), v0(all, 12)), t2(v0(oth, 6), v0(oth, 9), v0(oth, 12));
			Ev("same").a("x", all).a("y", oth).b("l", l1 == l2).b("ln", l1 != l2).b("t", t1 == t2).b("tn", t1 != t2).end();
		}
		Ints qq = ints(3, -30, 30);
		Ev("neartri").a("t", tr).a("q", qq).a("c", RL(closestPoint(T, L(qq)), 64)).end();
		{	// a triangle without area is its longest side
			Ints fd = ints(3, -3, 3), f = ints(3, -6, 6), ij = { r.range(-3, 3), r.range(-3, 3) }, fq = ints(3, -30, 30); if (r.range(0, 4) == 0) ij = { 0, 0 };
			for (int w : ij) for (int i = 0; i < 3; i++) f.push_back(f[i] + w * fd[i]);
			if (r.range(0, 2) == 0) { int w = r.range(-6, 6); for (int i = 0; i < 3; i++) fq[i] = f[i] + w * fd[i]; } // on its carrier
			Triangle flat(L(f), L(f, 3), L(f, 6));
			Ev("flatnear").a("a", f).a("d", fd).a("ij", ij).a("q", fq).a("c", RL(closestPoint(flat, L(fq)), 256)).end();
		}
		if (e % 4 == 0)
		{
			Ints v = ints(3, 1, 3); Line l2 = ln; Triangle t2 = T; const char* nm[] = { "+", "-", "*", "/" }; int k = r.range(0, 3);
			for (auto& x : v) if (k == 3) x = 1 << (x - 1); 
			Ints src = cat(cat(a, b), tr); auto w = k < 2 ? L(v) : V(v, 0, rescale(k == 3)); Line l3; Triangle t3;
			if (k == 0) { l2 += w; t2 += w; l3 = ln + w; t3 = T + w; } if (k == 1) { l2 -= w; t2 -= w; l3 = ln - w; t3 = T - w; }
			if (k == 2) { l2 *= w; t2 *= w; l3 = ln * w; t3 = T * w; } if (k == 3) { l2 /= w; t2 /= w; l3 = ln / w; t3 = T / w; }
			auto all = [](const Line& l, const Triangle& t) { Ints o = EL(l.start, 2); for (f32x4 x : { l.end, t.p0, t.p1, t.p2 }) o = cat(o, EL(x, 2)); return o; };
			Ev("moved").t("k", nm[k]).a("v", v).a("src", src).a("x", all(l2, t2)).a("y", all(l3, t3)).end();
		}
	}
}
//-------------------------------------------------------------------------------------------- G03 cameras
static Ints F4(const f32x4& v, double unit) { return { encr(v.getX(), unit), encr(v.getY(), unit), encr(v.getZ(), unit), encr(v.getW(), unit) }; }
static void cameras(int n)
{
	for (int e = 0; e < n; e++)
	{
		if (e % 40 == 0) rec.episode();
		// tangent of the half angle tn/td, aspect an/ad, near, far
		int tn = r.range(1, 8), td = r.range(1, 8), an = r.range(1, 6), ad = r.range(1, 6), nr = r.range(1, 6), fr = nr + r.range(1, 40);
		unit(); int KT = r.coin() ? 0 : -r.range(0, 20); float TS = std::ldexp(1.0f, KT);      // narrow views: their tangent counted in 2^KT
		float fov = 2.0f * std::atan((float)tn / (float)td * TS), asp = (float)an / (float)ad; int k = r.range(0, 4); float4x4 M;
		Ints w = { 0, 0 }, hh = { 0, 0 }, dd = { 0, 0 };
		if (k == 0) M = calcPerspProj(fov, asp, nr * LS, fr * LS); else if (k == 1) M = calcPerspProjRevZ(fov, asp, nr * LS, fr * LS); else if (k == 2) M = calcPerspProjInfRevZ(fov, asp, nr * LS);
		else
		{
			w = ints(2, -9, 9); if (w[0] == w[1]) w[1]++; hh = ints(2, -9, 9); if (hh[0] == hh[1]) hh[1]++; dd = ints(2, -9, 30); if (dd[0] == dd[1]) dd[1]++;
			if (w[0] > w[1]) std::swap(w[0], w[1]); if (hh[0] > hh[1]) std::swap(hh[0], hh[1]); if (dd[0] > dd[1]) std::swap(dd[0], dd[1]);
			M = k == 3 ? calcOrthoProj(float2(w[0] * LS, w[1] * LS), float2(hh[0] * LS, hh[1] * LS), float2(dd[0] * LS, dd[1] * LS)) : calcOrthoProjRevZ(float2(w[0] * LS, w[1] * LS), float2(hh[0] * LS, hh[1] * LS), float2(dd[0] * LS, dd[1] * LS));
		}
		Ints p;
		if (k < 3) { p = ints(3, -20, 20); int z = r.range(0, 4); p[2] = z == 0 ? nr : z == 1 ? fr : r.range(-10, 50); } else { p = ints(3, -10, 10); int z = r.range(0, 3); if (z < 2) p[2] = dd[z]; int x = r.range(0, 3); if (x < 2) { p[0] = w[x]; p[1] = hh[r.range(0, 1)]; } }
		if (k > 2) { KT = 0; TS = 1.0f; }
		f32x4 at(p[0] * TS * LS, p[1] * TS * LS, p[2] * LS, 1.0f); f32x4x4 S(M); f32x4 c = S * at; double cu = k < 3 ? 512 / LS : 512; // clip space of a perspective projection is measured in lengths
		Plane pl[6]; extractFrustumPlanes(S, pl);
		Ints dist; for (auto& x : pl) dist.push_back(encr(distance3(x, at), cu));
		normalizePlanes(pl, 6); Ints dn; for (auto& x : pl) dn.push_back(encr(distance3(x, at), 512 / LS / (&x < pl + 4 ? TS : 1.0f)));
		Ev("camera").i("k", k).a("fov", { tn, td, an, ad, nr, fr }).a("w", w).a("h", hh).a("d", dd).a("p", p).a("clip", F4(c, cu)).a("dist", dist).a("unit", dn).end();
		// arbitrary integer matrices: the planes are exactly the clip inequalities
		std::vector<Ints> rows; for (int i = 0; i < 4; i++) rows.push_back(ints(4, -6, 6));
		f32x4x4 I(f32x4(rows[0][0], rows[1][0], rows[2][0], rows[3][0]), f32x4(rows[0][1], rows[1][1], rows[2][1], rows[3][1]), f32x4(rows[0][2], rows[1][2], rows[2][2], rows[3][2]), f32x4(rows[0][3], rows[1][3], rows[2][3], rows[3][3]));
		extractFrustumPlanes(I, pl); dist.clear(); for (auto& x : pl) dist.push_back(enc(distance3(x, V(p))));
		Ev("planes6").aa("m", rows).a("p", p).a("dist", dist).end();
	}
}

int main(int argc, char** argv)
{
	auto A = init(argc, argv); r = Rng(A.seed * 104729 + 5); int big = A.thorough ? 12 : 1;
	rec.perFile = 3000;
	if (A.mode == "box")
	{
		rec.episode();
		constant("zero", Aabb::zero); constant("one", Aabb::one); constant("two", Aabb::two); constant("half", Aabb::half);
		constant("full", Aabb::full); constant("inf", Aabb::inf); constant("default", Aabb());
		openBoxes(500 * big); boxRandom(200 * big);
	}
	else if (A.mode == "boxreplay") boxReplay(A.script);
	else if (A.mode == "ray") rays(3000 * big);
	else if (A.mode == "tri") tris(2500 * big);
	else if (A.mode == "trireplay") trisReplay(A.script);
	else if (A.mode == "cull") frusta(2500 * big);
	else if (A.mode == "plane") planes(500 * big);
	else if (A.mode == "point") points(500 * big);
	else if (A.mode == "camera") cameras(1200 * big);
	else { fprintf(stderr, "unknown mode\n"); return 3; }
	return 0;
}
