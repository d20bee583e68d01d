// Records builds and queries of math::Bvh as traces of spec/Bvh.tla.
#include "h.hpp"
#include "math/bvh.hpp"
#include <map>
#include <thread>
#include <atomic>
using namespace math; using namespace h;
#undef assert
#define assert(x) do { } while (0)

struct Box6f { float v[6]; };
struct Scene
{
	int kind = 0;                 // 0 boxes, 1 triangles with 16-bit indices, 2 triangles with 32-bit indices
	int n = 0, stride = 12;
	bool external = false;        // caller supplied centroids
	std::vector<Box6f> boxes;     // bounding box of each primitive
	std::vector<float> tris;      // 9 floats per primitive (kinds 1, 2)
	std::vector<float> cents;     // 3 floats per primitive
	Box6f root;
	float w = 0;                  // garbage in the fourth lane of boxes
	float unit = 1;               // the length of one unit in the storage handed to the library
	// storage handed to the library
	std::vector<uint8> vb, ib; std::vector<Aabb> ab; std::vector<f32x4> cb;
};

static float S = 1; // unit of the hierarchy built last
static float anyUnit(Rng& r) { return std::ldexp(1.0f, r.coin() ? 0 : r.pick({ -40, -20, -10, -5, 7, 12, 20, 40 })); }
static void unite(Box6f& a, const Box6f& b)
{
	for (int i = 0; i < 3; i++) { a.v[i] = std::min(a.v[i], b.v[i]); a.v[3 + i] = std::max(a.v[3 + i], b.v[3 + i]); }
}
static void finish(Scene& s, Rng& r)
{
	if (s.kind)
	{
		s.boxes.clear();
		for (int i = 0; i < s.n; i++)
		{
			Box6f b; const float* t = &s.tris[i * 9];
			for (int a = 0; a < 3; a++)
			{
				b.v[a] = std::min(t[a], std::min(t[3 + a], t[6 + a])); b.v[3 + a] = std::max(t[a], std::max(t[3 + a], t[6 + a]));
			}
			s.boxes.push_back(b);
		}
	}
	s.root = s.boxes[0];
	for (auto& b : s.boxes) unite(s.root, b);
}
// Puts the scene into the library's input format. Vertices are shared between triangles when they are equal.
static void materialize(Scene& s, Rng& r)
{
	s.ab.clear(); s.vb.clear(); s.ib.clear(); s.cb.clear(); S = s.unit;
	for (int i = 0; i < s.n; i++)
	{
		float* b = s.boxes[i].v;
		s.ab.push_back(Aabb(f32x4(b[0] * S, b[1] * S, b[2] * S, s.w), f32x4(b[3] * S, b[4] * S, b[5] * S, s.w)));
	}
	if (s.kind)
	{
		std::vector<std::vector<float>> verts; std::map<std::vector<float>, size_t> known;
		std::vector<uint32> idx;
		for (int i = 0; i < s.n * 3; i++)
		{
			std::vector<float> p(&s.tris[i * 3], &s.tris[i * 3] + 3); size_t k = known.insert({ p, verts.size() }).first->second;
			if (k == verts.size()) verts.push_back(p);
			idx.push_back((uint32)k);
		}
		// shuffle the vertex order
		// and leave unused vertices between the used ones, so that large vertex numbers occur
		size_t slots = verts.size();
		if (r.range(0, 4) == 0) slots += s.kind == 1 ? r.pick({ 300, 40000, 65536 - (int)slots }) : r.pick({ 300, 70000, 140000 });
		std::vector<uint32> pos(slots); for (size_t k = 0; k < pos.size(); k++) pos[k] = (uint32)k;
		for (size_t k = pos.size(); k > 1; k--) std::swap(pos[k - 1], pos[r.next() % k]);
		s.vb.resize(slots * s.stride);
		for (auto& x : s.vb) x = (uint8)r.next();
		for (auto& v : verts) for (auto& x : v) x *= S;
		for (size_t k = 0; k < verts.size(); k++) memcpy(&s.vb[pos[k] * s.stride], verts[k].data(), 12);
		for (auto k : idx)
		{
			uint32 v = pos[k];
			if (s.kind == 1) { uint16 q = (uint16)v; s.ib.insert(s.ib.end(), (uint8*)&q, (uint8*)&q + 2); }
			else s.ib.insert(s.ib.end(), (uint8*)&v, (uint8*)&v + 4);
		}
	}
	if (s.external)
		for (int i = 0; i < s.n; i++) s.cb.push_back(f32x4(s.cents[i * 3] * S, s.cents[i * 3 + 1] * S, s.cents[i * 3 + 2] * S, s.w));
}
static Aabb rootBox(const Scene& s) { auto v = s.root.v; return Aabb(f32x4(v[0] * S, v[1] * S, v[2] * S, s.w), f32x4(v[3] * S, v[4] * S, v[5] * S, s.w)); }

static void construct(Bvh& bvh, Scene& s, bool ctor)
{
	auto c = s.external ? s.cb.data() : nullptr;
	if (s.kind)
	{
		uint32 is = s.kind == 1 ? 2 : 4;
		if (ctor) bvh = Bvh(s.vb.data(), s.ib.data(), rootBox(s), s.n * 3, s.stride, is, c);
		else bvh.recreate(s.vb.data(), s.ib.data(), rootBox(s), s.n * 3, s.stride, is, c);
	}
	else
	{
		if (ctor) bvh = Bvh(s.ab.data(), rootBox(s), s.n, c);
		else bvh.recreate(s.ab.data(), rootBox(s), s.n, c);
	}
}

// Order preserving encoding of the coordinates: exact integers, or ranks for arbitrary floats.
struct Coder
{
	bool exact; std::vector<float> vals;
	void add(float v) { if (!exact) vals.push_back(v); }
	void done() { std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end()); }
	long long operator()(float v) const
	{
		if (exact) return enc(v);
		if (std::isnan(v)) return NaN;
		return std::lower_bound(vals.begin(), vals.end(), v) - vals.begin();
	}
};
static Ints box6(const Coder& c, const Box6f& b) { Ints r; for (float x : b.v) r.push_back(c(x)); return r; }
static Box6f nodeBox(const Bvh::Node& n)
{
	auto a = n.aabb.getMin(), b = n.aabb.getMax();
	return Box6f{ { a.getX() / S, a.getY() / S, a.getZ() / S, b.getX() / S, b.getY() / S, b.getZ() / S } };
}

// Records begin / split* / built for the current content of bvh.
static void record(Bvh& bvh, const Scene& s, bool exact, bool sah, const std::string& key)
{
	auto& nodes = bvh.getNodes(); auto& perm = bvh.getPrimitives();
	Coder c{ exact };
	for (auto& b : s.boxes) for (float x : b.v) c.add(x);
	for (float x : s.root.v) c.add(x);
	for (auto& n : nodes) for (float x : nodeBox(n).v) c.add(x);
	c.done();
	std::vector<Ints> P, C;
	for (auto& b : s.boxes) P.push_back(box6(c, b));
	if (sah) for (int i = 0; i < s.n; i++)
	{
		// what the library uses: the given centroids, the box centres (doubled) or the vertex means (tripled)
		Ints v;
		for (int a = 0; a < 3; a++)
		{
			if (s.external) v.push_back(enc(s.cents[i * 3 + a]));
			else if (!s.kind) v.push_back(enc((double)s.boxes[i].v[a] + s.boxes[i].v[3 + a]));
			else v.push_back(enc((double)s.tris[i * 9 + a] + s.tris[i * 9 + 3 + a] + s.tris[i * 9 + 6 + a]));
		}
		C.push_back(v);
	}
	Ev("begin").i("n", s.n).b("sah", sah).aa("p", P).aa("c", C).a("root", box6(c, s.root)).end();
	// ranges: derived top-down from the leaves
	std::vector<long long> first(nodes.size(), -1), count(nodes.size(), -1);
	bool bad = nodes.empty();
	for (size_t k = nodes.size(); k-- > 0 && !bad; )
	{
		if (nodes[k].isLeaf())
		{
			first[k] = nodes[k].getFirstPrimitive(); count[k] = nodes[k].getPrimitiveCount();
			if (first[k] + count[k] > (long long)perm.size()) bad = true;
		}
		else
		{
			size_t l = nodes[k].getLeftNode();
			if (l <= k || l + 1 >= nodes.size() || first[l] < 0 || first[l + 1] < 0) { bad = true; break; }
			first[k] = std::min(first[l], first[l + 1]); count[k] = count[l] + count[l + 1];
		}
	}
	if (bad) { Ev("malformed").i("nodes", nodes.size()).i("perm", perm.size()).end(); return; }
	std::vector<std::pair<size_t, size_t>> order; // by left child
	for (size_t k = 0; k < nodes.size(); k++) if (!nodes[k].isLeaf()) order.push_back({ nodes[k].getLeftNode(), k });
	std::sort(order.begin(), order.end());
	Ints tree;
	for (auto& o : order)
	{
		size_t l = o.first; Ints s1, s2;
		for (long long i = first[l]; i < first[l] + count[l]; i++) s1.push_back(i < (long long)perm.size() ? perm[i] : -1);
		for (long long i = first[l + 1]; i < first[l + 1] + count[l + 1]; i++) s2.push_back(i < (long long)perm.size() ? perm[i] : -1);
		Ev("split").i("node", o.second).i("left", l).i("c1", count[l]).i("c2", count[l + 1]).i("f1", first[l]).i("f2", first[l + 1])
			.a("s1", s1).a("s2", s2).a("b1", box6(c, nodeBox(nodes[l]))).a("b2", box6(c, nodeBox(nodes[l + 1]))).end();
	}
	for (size_t k = 0; k < nodes.size(); k++)
	{
		tree.push_back(nodes[k].isLeaf() ? -1 : (long long)nodes[k].getLeftNode());
		tree.push_back(first[k]); tree.push_back(count[k]);
	}
	Ints p; for (auto x : perm) p.push_back(x);
	Ev("built").i("nodes", nodes.size()).i("stack", bvh.getNodeStack().size()).a("root", box6(c, nodeBox(nodes[0])))
		.a("perm", p).a("tree", key.empty() ? Ints() : tree).t("key", key).end();
}

//------------------------------------------------------------------------------------------------ scenes
static float lattice(Rng& r, int m, int step) { return (float)(r.range(0, m) * step); }
static Scene latticeScene(Rng& r, int maxN, int m, int kind, bool external)
{
	Scene s; s.kind = kind; s.external = external; s.unit = anyUnit(r);
	s.n = maxN < 0 ? -maxN : r.range(1, maxN); s.stride = r.pick({ 12, 16, 32, 20 });
	s.w = r.pick({ 0.0f, 1.0f, -3.0f, 12345.0f, 1e30f });
	int flat = r.range(0, 5); // sometimes collapse axes
	if (kind)
	{
		int step = 3;
		for (int i = 0; i < s.n; i++)
		{
			int o[3] = { r.range(0, m), r.range(0, m), r.range(0, m) };
			for (int k = 0; k < 3; k++) for (int a = 0; a < 3; a++)
				s.tris.push_back(a < 3 && ((flat == 1 && a == 2) || (flat == 2 && a != 0)) ? 0.0f : (float)((o[a] + r.range(0, 2) - m / 2) * step));
		}
	}
	else
	{
		for (int i = 0; i < s.n; i++)
		{
			Box6f b;
			for (int a = 0; a < 3; a++)
			{
				int lo = r.range(0, m) - m / 2, sz = r.range(0, 3);
				if ((flat == 1 && a == 2) || (flat == 2 && a != 0)) { lo = 0; }
				b.v[a] = (float)lo * 2; b.v[3 + a] = (float)(lo + sz) * 2;
			}
			if (i && r.range(0, 7) == 0) b = s.boxes[r.next() % i]; // coincident
			s.boxes.push_back(b);
		}
	}
	if (external)
		for (int i = 0; i < s.n * 3; i++) s.cents.push_back((float)r.range(-m, m));
	finish(s, r);
	if (r.range(0, 4) == 0) for (int a = 0; a < 3; a++) { s.root.v[a] -= r.range(0, 4); s.root.v[3 + a] += r.range(0, 4); }
	return s;
}
static float wild(Rng& r, int style)
{
	switch (style)
	{
	case 0: return (float)r.range(-1000, 1000) / 7.0f;
	case 1: return 1.0e8f + (float)r.range(0, 4) * 8.0f;
	case 2: { float f; uint32_t b = 0x3F800000u + (r.u32() % 5); memcpy(&f, &b, 4); return f; } // neighbours of 1
	case 3: return r.pick({ 0.0f, 1e-40f, 1e-39f, -1e-42f, 1e-38f });
	case 4: return r.pick({ -1e18f, 1e18f, 3e18f, 0.0f, 1.0f });
	case 5: return r.pick({ -3e38f, 3e38f, 2e38f, 0.0f, 1e37f });
	case 6: return -5.0f;
	case 7: return std::ldexp((float)r.range(-8, 8), r.range(-20, 20));
	case 8: return -1.0e7f - (float)r.range(0, 3);
	default: return r.pick({ 0.0f, -0.0f, 1.0f });
	}
}
static Scene wildScene(Rng& r, int maxN, int kind, bool external)
{
	Scene s; s.kind = kind; s.external = external; s.n = r.range(1, maxN); s.stride = r.pick({ 12, 16, 28 });
	s.w = r.pick({ 0.0f, 1.0f, -1e9f });
	int st[3]; int base = r.range(0, 9); for (int& x : st) x = r.coin() ? base : r.range(0, 9);
	for (int i = 0; i < s.n; i++)
	{
		if (kind) for (int k = 0; k < 3; k++) for (int a = 0; a < 3; a++) s.tris.push_back(wild(r, st[a]));
		else
		{
			Box6f b; bool point = r.range(0, 2) == 0;
			for (int a = 0; a < 3; a++) { float x = wild(r, st[a]), y = point ? x : wild(r, st[a]); b.v[a] = std::min(x, y); b.v[3 + a] = std::max(x, y); }
			s.boxes.push_back(b);
		}
	}
	if (external) for (int i = 0; i < s.n; i++) { int q = r.range(0, 9); for (int a = 0; a < 3; a++) s.cents.push_back(wild(r, q)); }
	finish(s, r);
	int rk = r.range(0, 5);
	for (int a = 0; a < 3; a++)
	{
		if (rk == 0) { s.root.v[a] = -FLT_MAX; s.root.v[3 + a] = FLT_MAX; }
		if (rk == 1) { s.root.v[a] = -INFINITY; s.root.v[3 + a] = INFINITY; }
		if (rk == 2) { s.root.v[a] = s.root.v[3 + a] = 0; }
	}
	return s;
}

//------------------------------------------------------------------------------------------------ queries
static std::vector<Plane> planesOf(const std::vector<Ints>& planes)
{
	std::vector<Plane> ps; for (auto& p : planes) ps.push_back(Plane(f32x4((float)p[0], (float)p[1], (float)p[2], (float)p[3]), p[3] * S, false));
	return ps;
}
static void frustumEv(const std::vector<Ints>& planes, uint32 ret, const std::vector<uint32>& out, size_t left)
{
	Ints got; for (uint32 i = 0; i < ret && i < out.size(); i++) got.push_back(out[i] == 0xFFFFFFFF ? -1 : (long long)out[i]);
	Ev("frustum").aa("planes", planes).i("ret", ret).a("out", got).i("stack", left).end();
}
static void frustum(Bvh& bvh, int n, const std::vector<Ints>& planes, int stackMode)
{
	auto ps = planesOf(planes); size_t held = bvh.getNodeStack().size(); // a walk may be under way
	std::vector<uint32> out(n + 4, 0xFFFFFFFF);
	std::stack<Bvh::Node*> own; uint32 ret;
	if (stackMode == 0) ret = bvh.collectInFrustum(ps.data(), (uint8)ps.size(), out.data());
	else ret = bvh.collectInFrustum(ps.data(), (uint8)ps.size(), out.data(), &own);
	frustumEv(planes, ret, out, own.size() + (bvh.getNodeStack().size() != held));
}
static Ints randPlane(Rng& r, int m)
{
	Ints p;
	if (r.range(0, 2) == 0) { p = { 0, 0, 0, r.range(-m, m) }; p[r.range(0, 2)] = r.coin() ? 1 : -1; }
	else p = { r.range(-3, 3), r.range(-3, 3), r.range(-3, 3), r.range(-3 * m, 3 * m) };
	return p;
}
// A few planes, or many of which one or two decide.
static std::vector<Ints> planeSet(Rng& r, int m)
{
	std::vector<Ints> pl; int few = r.range(0, 5), n = few ? r.range(1, 6) : r.pick({ r.range(7, 20), r.range(7, 40), r.range(120, 255) });
	for (int k = 0; k < n; k++) pl.push_back(randPlane(r, m));
	if (!few && r.range(0, 3)) for (int k = r.range(0, n - 1), at = k; at < n + k - 1 - r.range(0, 1); at++) pl[(at + 1) % n][3] += 4000;
	return pl;
}

// Several threads ask at the same time, each with a stack of its own.
static void together(Rng& r, Bvh& bvh, int n)
{
	struct Ask { std::vector<Ints> planes; std::vector<Plane> ps; std::vector<uint32> out; uint32 ret = 0; bool stable = true; size_t left = 0; };
	std::vector<Ask> asks(8); std::vector<std::thread> ts; std::atomic<int> ready{0};
	for (auto& a : asks) { a.planes = planeSet(r, 24); a.ps = planesOf(a.planes); a.out.assign(n + 4, 0xFFFFFFFF); }
	for (auto& a : asks) ts.emplace_back([&]()
	{
		std::stack<Bvh::Node*> own; ready++; while (ready < (int)asks.size()) std::this_thread::yield();
		a.ret = bvh.collectInFrustum(a.ps.data(), (uint8)a.ps.size(), a.out.data(), &own);
		auto first = a.out;
		for (int k = 0; k < 300 && a.stable; k++)
		{
			std::vector<uint32> out(n + 4, 0xFFFFFFFF); uint32 ret = bvh.collectInFrustum(a.ps.data(), (uint8)a.ps.size(), out.data(), &own);
			if (ret != a.ret || out != a.out) { a.ret = ret; a.out = out; a.stable = false; }
		}
		a.left = own.size();
		if (!a.stable && std::equal(first.begin(), first.end(), a.out.begin())) a.left++;
	});
	for (auto& t : ts) t.join();
	for (auto& a : asks) frustumEv(a.planes, a.ret, a.out, a.left + bvh.getNodeStack().size() + !a.stable);
}
// While a walk of a container is under way others are built and searched, and itself is with a stack of the caller.
static void meanwhile(Rng& r, Bvh& bvh, int n)
{
	if (r.range(0, 3)) return;
	if (r.coin())
	{
		std::vector<Aabb> a; for (int i = r.range(1, 9); i > 0; i--) { f32x4 p((float)r.range(0, 9), (float)r.range(0, 9), (float)r.range(0, 9), 0); a.push_back(Aabb(p, p + f32x4(1.0f))); }
		Bvh other(a.data(), Aabb(f32x4(0.0f), f32x4(10.0f)), (uint32)a.size()); other.traverse([&](const Bvh::Node&) { return r.range(0, 4) != 0; }, [](uint32, uint32) {});
		uint32 out[16]; Plane p(f32x4(1, 0, 0, 0), -5, false); other.collectInFrustum(&p, 1, out);
	}
	else
	{
		std::vector<Ints> pl = planeSet(r, 24);
		frustum(bvh, n, pl, 1);
	}
}
static void walk(Bvh& bvh, const std::function<bool(const Bvh::Node&, long long)>& accept, Rng* r = nullptr, int count = 0)
{
	const Bvh::Node* base = bvh.getNodes().data();
	if (bvh.getNodes().empty())
	{
		int tests = 0, leaves = 0; uint32 ret;
		bvh.traverse([&](const Bvh::Node&) { tests++; return true; }, [&](uint32, uint32) { leaves++; });
		Plane p(f32x4(1, 0, 0, 0), 0, false); uint32 out[4];
		ret = bvh.collectInFrustum(&p, 1, out);
		Ev("emptyquery").i("tests", tests).i("leaves", leaves).i("ret", ret).i("stack", bvh.getNodeStack().size()).end();
		return;
	}
	Ev("walk").end();
	bvh.traverse([&](const Bvh::Node& n)
	{
		long long id = &n - base; bool yes = accept(n, id);
		Ev("test").i("node", id).b("yes", yes).end();
		if (r) meanwhile(*r, bvh, count);
		return yes;
	}, [&](uint32 f, uint32 c) { Ev("leaf").i("first", f).i("count", c).end(); if (r) meanwhile(*r, bvh, count); });
	Ev("walkend").i("stack", bvh.getNodeStack().size()).end();
}
static bool meets(const Bvh::Node& n, const Box6f& q)
{
	auto b = nodeBox(n);
	for (int a = 0; a < 3; a++) if (b.v[a] > q.v[3 + a] || q.v[a] > b.v[3 + a]) return false;
	return true;
}
// Tens of thousands of primitives in a few clusters of coincident ones: the tree over the clusters, and how many of each a leaf holds.
static void crowd(Rng& r)
{
	Scene s = latticeScene(r, -r.range(2, 10), 12, r.range(0, 2), false), all = s; s.external = false; int k = s.n; Ints w, owner; std::vector<Ints> P, nb, per;
	all.n = 0; all.boxes.clear(); all.tris.clear();
	int heavy = r.range(0, k - 1), style = r.range(0, 3) % 3; std::vector<Ints> C;
	for (int c = 0; c < k; c++) w.push_back(style == 0 ? (c == heavy ? 65536 + r.range(-1, 300) : r.range(1, 4)) : style == 1 ? 65600 / k + r.range(1, 3000) : r.range(1, 20000));
	Ints order; for (int c = 0; c < k; c++) for (int i = 0; i < w[c]; i++) order.push_back(c);
	if (r.coin()) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.next() % i]);
	for (auto c : order)
	{
		all.n++; owner.push_back(c);
		if (s.kind) all.tris.insert(all.tris.end(), &s.tris[c * 9], &s.tris[c * 9] + 9); else all.boxes.push_back(s.boxes[c]);
	}
	finish(all, r); materialize(all, r); Coder c{ true };
	for (int i = 0; i < k; i++)
	{
		P.push_back(box6(c, s.boxes[i])); Ints v;
		for (int a = 0; a < 3; a++) v.push_back(s.kind ? enc(s.tris[i * 9 + a] + s.tris[i * 9 + 3 + a] + s.tris[i * 9 + 6 + a]) : enc(s.boxes[i].v[a] + s.boxes[i].v[3 + a]));
		C.push_back(v);
	}
	Bvh bvh; construct(bvh, all, r.coin()); auto& nodes = bvh.getNodes(); auto& perm = bvh.getPrimitives();
	auto count = [&](const uint32* ids, size_t n) { Ints x(k, 0); for (size_t i = 0; i < n; i++) if (ids[i] < owner.size()) x[owner[ids[i]]]++; return x; };
	auto distinct = [&](std::vector<uint32> v) { std::sort(v.begin(), v.end()); return std::unique(v.begin(), v.end()) == v.end() && (v.empty() || v.back() < owner.size()); };
	Ints kid, first, cnt; std::vector<long long> seen;
	for (auto& n : nodes)
	{
		bool leaf = n.isLeaf(); kid.push_back(leaf ? 0 : n.getLeftNode()); first.push_back(leaf ? n.getFirstPrimitive() : -1); cnt.push_back(n.getPrimitiveCount());
		nb.push_back(box6(c, nodeBox(n))); bool in = leaf && (size_t)n.getFirstPrimitive() + n.getPrimitiveCount() <= perm.size(); per.push_back(in ? count(&perm[n.getFirstPrimitive()], n.getPrimitiveCount()) : Ints());
	}
	Ev("crowd").aa("p", P).aa("c", C).a("w", w).a("root", box6(c, all.root)).a("kid", kid).a("first", first).a("count", cnt).aa("box", nb).aa("per", per)
		.b("perm", perm.size() == owner.size() && distinct(perm)).end();
	bool sound = true; for (size_t i = 0; i < nodes.size(); i++) if (kid[i] && (kid[i] <= (long long)i || kid[i] + 1 >= (long long)nodes.size())) sound = false;
	for (int q = 0; q < 4 && sound; q++)
	{
		std::vector<Ints> pl; for (int m = r.range(1, 3); m > 0; m--) pl.push_back(q ? randPlane(r, 12) : Ints{ 0, 0, 0, 1 });
		std::vector<Plane> ps; for (auto& p : pl) ps.push_back(Plane(f32x4((float)p[0], (float)p[1], (float)p[2], (float)p[3]), p[3] * S, false));
		std::vector<uint32> out(owner.size() * 2 + 4, 0xFFFFFFFF); uint32 ret = bvh.collectInFrustum(ps.data(), (uint8)ps.size(), out.data());
		out.resize(std::min((size_t)ret, out.size()));
		std::vector<Ints> leaves; bvh.traverse([&](const Bvh::Node& n) { return true; }, [&](uint32 f, uint32 n) { leaves.push_back({ (long long)f, (long long)n }); });
		Ev("crowdq").aa("planes", pl).i("ret", ret).a("got", count(out.data(), out.size())).b("once", distinct(out)).aa("leaves", leaves).end();
	}
}

// More nodes than sixteen bits can count: tens of thousands of distinct small boxes.
static void giant(Rng& r, int e)
{
	Scene s; s.unit = anyUnit(r); s.n = r.range(58000, 66000); s.w = 3; int flat = r.range(0, 3); s.kind = e % 3; int m = s.kind == 1 ? 19 : 400;
	if (s.kind) for (int i = 0; i < s.n; i++)
	{
		int o[3]; for (int a = 0; a < 3; a++) o[a] = r.range(-m, m); // sixteen bit indices name at most 39^3 vertices
		for (int k = 0; k < 3; k++) for (int a = 0; a < 3; a++) s.tris.push_back((float)std::min(m, o[a] + (k ? r.range(0, 1) : 0)) * 3);
	}
	else
	for (int i = 0; i < s.n; i++) { Box6f b; for (int a = 0; a < 3; a++) { b.v[a] = a == flat ? 0.0f : (float)r.range(-400, 400) * 2; b.v[3 + a] = b.v[a] + 2 * r.range(0, 1); } s.boxes.push_back(b); }
	finish(s, r); materialize(s, r); Coder c{ true }; Bvh bvh; construct(bvh, s, r.coin()); auto& nodes = bvh.getNodes(); auto& perm = bvh.getPrimitives();
	std::vector<Ints> P, B; Ints kid, first, count; std::vector<long long> lo(nodes.size(), -1), n(nodes.size(), -1); bool sound = true;
	for (auto& b : s.boxes) P.push_back(box6(c, b));
	for (size_t k = nodes.size(); k-- > 0; )
	{
		if (nodes[k].isLeaf()) { lo[k] = nodes[k].getFirstPrimitive(); n[k] = nodes[k].getPrimitiveCount(); continue; }
		size_t l = nodes[k].getLeftNode(); if (l <= k || l + 1 >= nodes.size()) { sound = false; break; }
		lo[k] = std::min(lo[l], lo[l + 1]); n[k] = n[l] + n[l + 1];
	}
	for (size_t k = 0; k < nodes.size(); k++) { kid.push_back(nodes[k].isLeaf() ? 0 : nodes[k].getLeftNode()); first.push_back(lo[k]); count.push_back(n[k]); B.push_back(box6(c, nodeBox(nodes[k]))); }
	Ints ps; for (auto x : perm) ps.push_back(x);
	Ev("giant").b("sound", sound).aa("p", P).a("root", box6(c, s.root)).a("kid", kid).a("first", first).a("count", count).aa("box", B).a("perm", ps).end();
	for (int q = 0; q < 3 && sound; q++)
	{
		std::vector<Ints> pl; for (int m = r.range(1, 2); m > 0; m--) pl.push_back(q ? randPlane(r, 700) : Ints{ 0, 0, 0, 1 });
		std::vector<Plane> planes; for (auto& p : pl) planes.push_back(Plane(f32x4((float)p[0], (float)p[1], (float)p[2], (float)p[3]), p[3] * S, false));
		std::vector<uint32> out(s.n * 2 + 4, 0xFFFFFFFF); uint32 ret = bvh.collectInFrustum(planes.data(), (uint8)planes.size(), out.data());
		Ints got, lf, lc; for (uint32 i = 0; i < ret && i < out.size(); i++) got.push_back(out[i] == 0xFFFFFFFF ? -1 : (long long)out[i]);
		bvh.traverse([&](const Bvh::Node&) { return true; }, [&](uint32 f, uint32 n) { lf.push_back(f); lc.push_back(n); });
		Ev("giantq").aa("planes", pl).i("ret", ret).a("got", got).a("lf", lf).a("lc", lc).end();
	}
}

int main(int argc, char** argv)
{
	auto A = init(argc, argv); Rng r(A.seed * 7919 + 17);
	int big = A.thorough ? 6 : 1;
	auto build = [&](Bvh& b, Scene& s, bool exact, bool sah, const std::string& key = "")
	{
		materialize(s, r); construct(b, s, r.range(0, 5) == 0); record(b, s, exact, sah, key);
	};
	if (A.mode == "replay") // scenes enumerated by TLC
	{
		for (auto& v : readScript(A.script, "bvh"))
		{
			rec.episode(); Ev("fresh").b("forget", true).end();
			Scene s; s.n = v[0]; s.kind = 0; s.w = 7; s.unit = anyUnit(r);
			for (int i = 0; i < s.n; i++) { Box6f b; for (int k = 0; k < 6; k++) b.v[k] = (float)v[1 + i * 6 + k] * 2; s.boxes.push_back(b); }
			finish(s, r); Box6f q; for (int k = 0; k < 6; k++) q.v[k] = (float)v[1 + s.n * 6 + k] * 2;
			Bvh b; build(b, s, true, true);
			walk(b, [&](const Bvh::Node& n, long long) { return meets(n, q); });
			std::vector<Ints> pl; // the query box as six planes
			for (int a = 0; a < 3; a++) { Ints x = { 0, 0, 0, -(long long)q.v[a] }, y = { 0, 0, 0, (long long)q.v[3 + a] }; x[a] = 1; y[a] = -1; pl.push_back(x); pl.push_back(y); }
			frustum(b, s.n, pl, r.range(0, 1));
		}
	}
	else if (A.mode == "struct")
	{
		rec.perFile = 2500;
		for (int e = 0; e < 60 * big; e++)
		{
			rec.episode(); Ev("fresh").b("forget", true).end();
			Bvh b;
			if (e < 2 * big) { auto s = latticeScene(r, 1, 30, r.range(0, 2), false); int n = A.thorough ? 1500 : 400;
				while (s.n < n) { auto q = latticeScene(r, 60, 200, s.kind, false); s.n += q.n;
					s.boxes.insert(s.boxes.end(), q.boxes.begin(), q.boxes.end()); s.tris.insert(s.tris.end(), q.tris.begin(), q.tris.end()); }
				finish(s, r); build(b, s, true, false); }
			for (int k = r.range(1, 4); k > 0; k--)
			{
				int kind = r.range(0, 2); bool ext = r.range(0, 2) == 0;
				if (r.coin()) { auto s = latticeScene(r, r.pick({ 3, 10, 40, 70 }), r.pick({ 2, 8, 30 }), kind, ext); build(b, s, true, false); }
				else { auto s = wildScene(r, r.pick({ 3, 10, 40, 70 }), kind, ext); build(b, s, false, false); }
			}
		}
	}
	else if (A.mode == "degenerate")
	{
		rec.perFile = 2500;
		for (int e = 0; e < 120 * big; e++)
		{
			rec.episode(); Ev("fresh").b("forget", true).end();
			Bvh b;
			for (int k = r.range(1, 3); k > 0; k--) { auto s = wildScene(r, r.pick({ 1, 2, 3, 5, 9, 33, 120 }), r.range(0, 2), r.range(0, 1)); build(b, s, false, false); }
			walk(b, [&](const Bvh::Node&, long long) { return r.range(0, 4) != 0; });
		}
	}
	else if (A.mode == "query")
	{
		rec.perFile = 2500;
		for (int e = 0; e < 70 * big; e++)
		{
			rec.episode(); Ev("fresh").b("forget", true).end();
			Bvh b;
			if (r.range(0, 3) == 0) walk(b, nullptr);
			for (int k = r.range(1, 3); k > 0; k--)
			{
				auto s = latticeScene(r, r.pick({ 1, 2, 6, 20, 40 }), r.pick({ 4, 12 }), r.range(0, 2), r.range(0, 2) == 0);
				build(b, s, true, false);
				for (int qn = r.range(1, 5); qn > 0; qn--)
				{
					int t = r.range(0, 5);
					Rng* nest = r.range(0, 2) ? nullptr : &r;
					if (t == 0) walk(b, [&](const Bvh::Node&, long long) { return true; }, nest, s.n);
					else if (t == 1) walk(b, [&](const Bvh::Node&, long long id) { return id != 0 || r.coin(); }, nest, s.n);
					else if (t == 2) walk(b, [&](const Bvh::Node&, long long) { return r.range(0, 3) != 0; }, nest, s.n);
					else if (t == 3)
					{
						Box6f q; for (int a = 0; a < 3; a++) { float x = (float)r.range(-12, 24), y = (float)r.range(-12, 24); q.v[a] = std::min(x, y); q.v[3 + a] = std::max(x, y); }
						walk(b, [&](const Bvh::Node& n, long long) { return meets(n, q); });
					}
					else
					{
						auto pl = planeSet(r, 24);
						frustum(b, s.n, pl, r.range(0, 1));
					}
				}
			}
		}
	}
	else if (A.mode == "threads")
	{
		rec.perFile = 2500;
		for (int e = 0; e < 12 * big; e++)
		{
			rec.episode(); Ev("fresh").b("forget", true).end();
			Bvh b; auto s = latticeScene(r, r.pick({ 6, 20, 40 }), r.pick({ 4, 12 }), r.range(0, 2), r.range(0, 2) == 0);
			build(b, s, true, false); together(r, b, s.n);
		}
	}
	else if (A.mode == "crowd")
	{
		rec.perFile = 400;
		for (int e = 0; e < 30 * big; e++) { rec.episode(); Ev("fresh").b("forget", true).end(); crowd(r); }
	}
	else if (A.mode == "giant")
	{
		rec.perFile = 1;
		for (int e = 0; e < 3 * big; e++) { rec.episode(); Ev("fresh").b("forget", true).end(); giant(r, e); }
	}
	else if (A.mode == "sah")
	{
		rec.perFile = 800;
		for (int e = 0; e < 300 * big; e++)
		{
			rec.episode(); Ev("fresh").b("forget", true).end();
			Bvh b;
			auto s = latticeScene(r, r.pick({ 2, 4, 6, 10, 16 }), r.pick({ 2, 4, 8, 16 }), r.range(0, 2), r.range(0, 2) == 0);
			build(b, s, true, true);
		}
	}
	else if (A.mode == "rebuild")
	{
		rec.perFile = 2500;
		for (int e = 0; e < 40 * big; e++)
		{
			rec.episode(); Ev("fresh").b("forget", true).end();
			// a few inputs, built again and again in fresh and used containers, in every input format
			std::vector<Scene> in; int same = r.range(0, 2) ? r.pick({ 3, 8, 12, 30 }) : 0, kind = r.range(0, 1) ? 1 : 0;
			for (int k = 0; k < 3; k++)
			{
				bool ext = same ? r.range(0, 3) == 0 : r.coin(); Scene s = latticeScene(r, same ? -same : r.pick({ 1, 3, 8, 30 }), 8, same ? kind : r.range(0, 1) ? 1 : 0, ext);
				if (same && k == 2 && r.coin())
				{
					// the same set but for its last primitives
					Scene t = in[0]; int from = r.range(0, t.n - 1);
					for (int i = from; i < t.n; i++) if (!t.external && t.n == s.n) { if (t.kind && s.kind) for (int a = 0; a < 9; a++) t.tris[i*9+a] = s.tris[i*9+a]; else if (!t.kind && !s.kind) t.boxes[i] = s.boxes[i]; }
					s = t;
				}
				in.push_back(s);
			}
			Bvh used;
			for (int k = 0; k < 10; k++)
			{
				int which = r.range(0, 2); Scene s = in[which]; s.stride = r.pick({ 12, 16, 24, 40 });
				s.w = r.pick({ 0.0f, 5.0f, -7.0f });
				if (s.kind)
				{
					s.kind = r.range(1, 2);
					if (s.external && r.range(0, 2) == 0) { s.kind = 0; } // the same primitives as boxes, same centroids
				}
				if (!s.external && r.range(0, 2) == 0)
				{
					// the centroids the library computes itself, supplied by the caller
					for (int i = 0; i < s.n; i++) for (int a = 0; a < 3; a++)
						s.cents.push_back(s.kind ? (s.tris[i*9+a] + s.tris[i*9+3+a] + s.tris[i*9+6+a]) / 3.0f : (s.boxes[i].v[a] + s.boxes[i].v[3+a]) * 0.5f);
					s.external = true;
				}
				std::string key = "k" + std::to_string(which);
				materialize(s, r);
				if (r.range(0, 2) == 0)
				{
					Ev("fresh").b("forget", false).end();
					Bvh f; construct(f, s, r.coin()); record(f, s, true, false, key);
					Ev("fresh").b("forget", false).end();
					used = Bvh();
				}
				else { construct(used, s, false); record(used, s, true, false, key); }
				if (!used.getNodes().empty() && r.range(0, 3) == 0)
				{
					// a copy is a hierarchy of its own: whatever becomes of it, the original stays
					Bvh copy(used); if (r.coin()) { Bvh moved(std::move(copy)); copy = moved; }
					Ev("fresh").b("forget", false).end(); record(copy, s, true, false, key);
					Scene t = in[r.range(0, 2)]; materialize(t, r); construct(copy, t, false);
					materialize(s, r); Ev("fresh").b("forget", false).end(); record(used, s, true, false, key);
				}
			}
		}
	}
	else return 3;
	return 0;
}
