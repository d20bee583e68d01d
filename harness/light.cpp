// Image based lighting: cube maps, samples, spherical harmonics, colour spaces.
#include "h.hpp"
#include "math/brdf.hpp"
#include "math/ibl.hpp"
#include "math/sh.hpp"
#include "math/color-space.hpp"
#include "math/tone-mapping.hpp"
using namespace h;
using math::float2; using math::float3; using math::float3x3; using math::f32x4; using math::uint2; using math::uint3; using math::int32; using math::uint32;

static Ints r3(float3 v, double u) { return { encr(v.x, u), encr(v.y, u), encr(v.z, u) }; }
static Ints r4(f32x4 v, double u, int n = 3) { Ints o; for (int i = 0; i < n; i++) o.push_back(encr(v[i], u)); return o; }

// Linear quantities have a unit of their own, a power of two: radiance has no natural scale.
static float unit(Rng& r) { return std::ldexp(1.0f, r.coin() ? 0 : r.pick({ -30, -20, -12, -6, 8, 14, 20, 30 })); }

// ---------------------------------------------------------------- cube maps and samples
static void cube(uint32 n, uint32 f, uint32 x, uint32 y)
{
	float inv = 1.0f / n; float2 st = math::ibl::coordsToST(uint2(x, y), inv);
	float3 d = math::ibl::coordsToDir(uint3(x, y, f), inv), e = math::ibl::stToDir(st, f);
	Ev("cube").i("n", n).i("f", f).i("x", x).i("y", y).a("st", { encr(st.x, 4096), encr(st.y, 4096) }).a("d", r3(d, 16384))
		.b("same", std::fabs(d.x - e.x) < 1e-5f && std::fabs(d.y - e.y) < 1e-5f && std::fabs(d.z - e.z) < 1e-5f).end();
}
static void samples(Rng& r, bool thorough)
{
	rec.open();
	for (int k = 0; k <= 8; k++) for (int j = 0; j <= 8; j++)
		Ev("ggx").i("k", k).i("j", j).i("r", (j * j * (k * k - 64) + 4096) ? encr(math::brdf::ggx(j / 8.0f, k / 8.0f), 4096) : 0).end();
	for (int k = 1; k <= 96; k++) Ev("ior").i("k", k).i("r", encr(math::brdf::iorToReflectance(k / 16.0f), 65536)).end();
	for (int n = 0; n < (thorough ? 40000 : 2500); n++)
	{
		rec.episode();
		uint32 i = n < 600 ? (uint32)n : r.u32() >> r.range(8, 31); int k = r.range(0, 12);
		float2 p = math::brdf::hammersley(i, 1.0f / (1 << k));
		Ev("ham").i("i", i).i("x", enc((double)p.x * (1 << k))).i("y", enc(p.y, 24)).end();
		uint32 w = r.u32(); float2 q = math::brdf::hammersley(w, 1.0f / 4294967296.0f);
		Ev("hamhi").i("hi", w >> 16).i("lo", w & 0xFFFF).i("x", encr(q.x, 16777216.0)).i("y", encr(q.y, 16777216.0)).end();
		int kk = r.range(0, 15), j = r.range(0, 63), m = r.range(0, 16); float a = m / 16.0f;
		if (m == 0 && r.coin()) a = r.range(1, 1000) * 1e-7f;      // nearly smooth
		f32x4 d = math::brdf::importanceSamplingNdfDggx(float2(kk / 16.0f, j / 64.0f), a);
		Ev("samp").i("k", kk).i("j", j).i("m", m).a("d", r4(d, 16384)).i("w", 0).end();
		if (m == 0)
			for (int t = 0; t < 6; t++)
			{	// off the lattice: still a unit vector
				float u = (r.u32() >> 8) / 16777216.0f * 0.96875f; int jj = (int)(u * 64); f32x4 e = math::brdf::importanceSamplingNdfDggx(float2(kk / 16.0f, u), r.range(1, 1000) * 1e-7f);
				Ev("samp").i("k", kk).i("j", jj).i("m", 0).a("d", r4(e, 16384)).i("w", 0).end();
				// up to the last sample of a long sequence: the pole, when perfectly smooth
				u = 1.0f - std::ldexp(1.0f, -r.range(1, 23)); e = math::brdf::importanceSamplingNdfDggx(float2(kk / 16.0f, u), 0.0f);
				Ev("samp").i("k", kk).i("j", (int)(u * 64)).i("m", 0).a("d", r4(e, 16384)).i("w", 0).end();
			}
	}
}

// ---------------------------------------------------------------- spherical harmonics
struct Dir { int v[3], n; };
static std::vector<Dir> directions()
{
	static const int base[][4] = { { 1, 0, 0, 1 }, { 3, 4, 0, 5 }, { 1, 2, 2, 3 }, { 2, 3, 6, 7 }, { 1, 4, 8, 9 }, { 4, 4, 7, 9 }, { 2, 6, 9, 11 }, { 6, 6, 7, 11 }, { 3, 4, 12, 13 }, { 5, 12, 0, 13 } };
	static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	std::vector<Dir> r;
	for (auto& b : base) for (auto& p : perm) for (int s = 0; s < 8; s++)
	{
		Dir d; d.n = b[3]; for (int k = 0; k < 3; k++) d.v[k] = b[p[k]] * ((s >> k) & 1 ? -1 : 1);
		bool dup = false; for (auto& e : r) dup = dup || (!memcmp(e.v, d.v, sizeof d.v) && e.n == d.n);
		if (!dup) r.push_back(d);
	}
	return r;
}
// |normalisation| of the orthonormal real harmonics in the order of the coefficients
static const double nrm[9] = { 0.28209479177387814, 0.4886025119029199, 0.4886025119029199, 0.4886025119029199, 1.0925484305920792, 1.0925484305920792,
	0.31539156525252005, 1.0925484305920792, 0.5462742152960396 };
static Ints ints(const int* q, int n) { Ints o; for (int i = 0; i < n; i++) o.push_back(q[i]); return o; }
static float3x3 rotation(const int* u)
{
	double x = u[0], y = u[1], z = u[2], w = u[3], N = x * x + y * y + z * z + w * w;
	double R[3][3] = { { w*w + x*x - y*y - z*z, 2*(x*y - z*w), 2*(x*z + y*w) }, { 2*(x*y + z*w), w*w - x*x + y*y - z*z, 2*(y*z - x*w) }, { 2*(x*z - y*w), 2*(y*z + x*w), w*w - x*x - y*y + z*z } };
	float3x3 m; for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) m[c][r] = (float)(R[r][c] / N);
	return m;
}
static void harmonics(Rng& r, bool thorough)
{
	rec.open();
	float k[9], c[9]; f32x4 s[9]; for (auto& v : s) v = f32x4::one; math::sh::shaderPreprocessSH(s); Ints idx; bool lanes = true;
	for (int i = 0; i < 9; i++) { c[i] = s[i].getX() * (float)M_PI; k[i] = math::sh::ki[i]; for (int j = 1; j < 4; j++) lanes = lanes && s[i][j] == s[i][0]; }
	for (int l = 0; l < 3; l++) for (int m = -l; m <= l; m++) idx.push_back(math::sh::shIndex(m, l));
	Ints ci, kI; for (int i = 0; i < 9; i++) { ci.push_back(encr(c[i], 4096)); kI.push_back(encr(k[i], 4096)); }
	Ev("shconst").a("c", ci).a("k", kI).a("idx", idx).a("count", { math::ibl::shBandCount, math::ibl::shCoeffCount }).b("lanes", lanes).end();
	for (auto& d : directions())
	{
		float b[9]; math::sh::computeShBasis(float3((float)d.v[0] / d.n, (float)d.v[1] / d.n, (float)d.v[2] / d.n), b);
		Ints o; for (float v : b) o.push_back(encr(v, 4096));
		Ev("basis").a("v", ints(d.v, 3)).i("n", d.n).a("r", o).end();
	}
	for (int n : { 1, 2, 3, 4, 5, 8, 16 })
	{
		Ints a, sp;
		for (int y = 0; y < n; y++) for (int x = 0; x < n; x++)
		{
			auto area = [&](int m, int px, int py) { return (double)math::sh::calcSolidAngle(math::ibl::coordsToST(uint2(px, py), 1.0f / m), 1.0f / m); };
			a.push_back(encr(area(n, x, y), 16777216.0)); double t = 0;
			for (int q = 0; q < 4; q++) t += area(2 * n, 2 * x + (q & 1), 2 * y + (q >> 1));
			sp.push_back(encr(t, 16777216.0));
		}
		Ev("area").i("n", n).a("a", a).a("split", sp).end();
	}
	for (int i = 0; i < (thorough ? 6000 : 400); i++)
	{
		rec.episode();
		int q[9], u[4], N; for (auto& v : q) v = r.range(0, 2) ? r.range(-4, 4) : 0;
		do { for (auto& v : u) v = r.range(-2, 2); N = u[0]*u[0] + u[1]*u[1] + u[2]*u[2] + u[3]*u[3]; } while (!N || N > 9);
		float S = unit(r), sh[9], out[9]; for (int j = 0; j < 9; j++) sh[j] = (float)(q[j] / nrm[j]) * S;
		float3x3 m = rotation(u); bool nearly = r.coin();
		if (nearly) // nothing and next to nothing are the same
		{
			for (int j = 0; j < 9; j++) if (!q[j]) sh[j] = S * std::ldexp(r.coin() ? 1.0f : -1.0f, -r.range(18, 40));
			for (int j = 0; j < 3; j++) for (int c = 0; c < 3; c++) if (m[j][c] == 0.0f) m[j][c] = std::ldexp(r.coin() ? 1.0f : -1.0f, -r.range(18, 40));
		}
		math::sh::rotateSh3Bands(sh, m, out); float in[9]; memcpy(in, sh, sizeof in); math::sh::rotateSh3Bands(in, m, in);
		Ints o; for (int j = 0; j < 9; j++) o.push_back(encr(out[j] * nrm[j], 1024 / S));
		Ev("shrot").a("q", ints(q, 9)).a("u", ints(u, 4)).a("r", o).b("alias", !memcmp(in, out, sizeof in)).end();

		int w = r.pick({ 2, 3, 4, 6, 8, 12 }), p[9]; float sw[9]; for (int j = 0; j < 9; j++) { p[j] = r.range(-9, 9); sw[j] = p[j] * S; }
		math::sh::windowing(sw, (float)w); Ints ow; for (float v : sw) ow.push_back(encr(v, 65536 / S));
		Ev("window").a("q", ints(p, 9)).i("w", w).a("r", ow).end();
		std::vector<int> ws; for (int j = 0; j < 12; j++) ws.push_back(r.coin() ? r.range(1, 16) * 256 : r.range(64, 16 * 256)); std::sort(ws.begin(), ws.end());
		int l = r.range(0, 2); Ints sr; for (int x : ws) sr.push_back(encr(math::sh::sincWindow(l, x / 256.0f), 65536));
		Ev("sinc").i("l", l).a("w", Ints(ws.begin(), ws.end())).a("r", sr).end();
	}
}
// coefficients of c + b t + e (3 t^2 - 1), t = cosine to the axis
static void zonal(const Dir& d, int c, int b, int e, float* sh)
{
	double v[3]; for (int k = 0; k < 3; k++) v[k] = (double)d.v[k] / d.n;
	double x = v[0], y = v[1], z = v[2];
	// t = v.s;  3 t^2 - 1 expanded in the polynomials xy, -yz, 3z^2-1, -xz, x^2-y^2
	double q[9] = { (double)c, -b * y, b * z, -b * x, e * 6 * x * y, -e * 6 * y * z, e * (3 * z * z - 1) / 2, -e * 6 * x * z, e * 1.5 * (x * x - y * y) };
	for (int k = 0; k < 9; k++) sh[k] = (float)(q[k] / nrm[k]);
}
static void minima(Rng& r, bool thorough)
{
	auto D = directions();
	for (int i = 0; i < (thorough ? 20000 : 1200); i++)
	{
		rec.episode();
		const Dir& d = D[i < (int)D.size() ? i : r.range(0, (int)D.size() - 1)]; int b = r.range(1, 8) * (r.coin() ? 1 : -1), e = r.coin() ? r.range(0, 6) : 0, c = r.range(0, 12);
		if (i % 3 == 0) { e = -r.range(1, 6); c = std::abs(b) - 2 * e + r.range(1, 8); } // an arch, nowhere negative
		float S = unit(r), sh[9]; zonal(d, c, b, e, sh); for (auto& v : sh) v *= S; float m = math::sh::shmin(sh) / S;
		Ev("shmin").a("v", ints(d.v, 3)).i("c", c).i("b", b).i("e", e).i("r", encr(m, 1024)).end();
	}
	for (int i = 0; i < (thorough ? 6000 : 500); i++)
	{
		rec.episode();
		float S = unit(r); f32x4 sh[9]; std::vector<Ints> q(4), z(3); bool zon = r.coin(); double unit = 1;
		float co[4][9];
		for (int ch = 0; ch < 4; ch++)
			if (zon && ch < 3)
			{
				const Dir& d = r.pickv(D); int b = r.range(1, 8) * (r.coin() ? 1 : -1), e = r.coin() ? r.range(0, 4) : 0, c = r.range(1, 12) + (i % 4 == 0 ? 12 : 0);
				if (r.range(0, 3) == 0) { e = -r.range(1, 4); c = std::abs(b) - 2 * e + r.range(1, 8); }
				zonal(d, c, b, e, co[ch]); z[ch] = { c, b, e };
			}
			else for (int k = 0; k < 9; k++) co[ch][k] = k ? r.range(-64, 64) / 64.0f : r.range(16, 128) / 64.0f;
		for (int k = 0; k < 9; k++) sh[k] = f32x4(co[0][k], co[1][k], co[2][k], co[3][k]) * S;
		f32x4 out[9]; for (int k = 0; k < 9; k++) out[k] = sh[k]; math::sh::deringingSH(out); for (auto& v : out) v = v * (1.0f / S);
		// the factor of each band, from the largest input of that band
		Ints w; for (int l = 0; l < 3; l++) { double best = 0, f = 1; for (int ch = 0; ch < 4; ch++) for (int m = -l; m <= l; m++) { int k = l * (l + 1) + m; if (std::fabs(co[ch][k]) > best) { best = std::fabs(co[ch][k]); f = (double)out[k][ch] / co[ch][k]; } } w.push_back(encr(f, 65536)); }
		std::vector<Ints> o(4), qi(4);
		for (int ch = 0; ch < 4; ch++) for (int k = 0; k < 9; k++) { qi[ch].push_back(encr(co[ch][k], 64)); o[ch].push_back(encr((double)out[k][ch] * 64.0 * 65536 - (co[ch][k] * 64.0 - (double)encr(co[ch][k], 64)) * (double)w[k == 0 ? 0 : k < 4 ? 1 : 2], 1)); }
		Ev("dering").b("zonal", zon).aa("q", qi).aa("r", o).a("w", w).aa("z", z).end();
	}
}

// ---------------------------------------------------------------- colour spaces
#include "srgb_inputs.hpp"
static void spaces(Rng& r, bool thorough)
{
	for (int i = 0; i < (thorough ? 4000 : 300); i++)
	{
		rec.episode();
		int k[3]; for (int j = 0; j < 3; j++) k[j] = i < 86 ? std::min(3 * i + j, 255) : r.range(0, 255);
		int al = r.range(-64, 64);
		f32x4 s(k[0] / 255.0f, k[1] / 255.0f, k[2] / 255.0f, al / 16.0f), lin = math::srgbToRgb(s), back = math::rgbToSrgb(lin);
		f32x4 t(linearOf[k[0]], linearOf[k[1]], linearOf[k[2]], al / 16.0f), of = math::rgbToSrgb(t);
		Ev("srgb").a("k", ints(k, 3)).i("a", al).a("lin", r4(lin, 1048576)).a("back", r4(back, 255.0 * 4096)).a("of", r4(of, 255.0 * 4096))
			.a("alpha", { enc(lin.getW(), 4), enc(back.getW(), 4), enc(of.getW(), 4) }).end();
		std::vector<int> x; for (int j = 0; j < 24; j++) { int u = r.range(0, 1048576); switch (r.range(0, 3)) { case 0: u = 3283 + r.range(-40, 40); break; case 1: u = 42415 + r.range(-40, 40); break; case 2: u >>= r.range(0, 12); } x.push_back(u); }
		x.push_back(0); x.push_back(1048576); std::sort(x.begin(), x.end());
		Ints f, g; for (int u : x) { float v = u / 1048576.0f; f.push_back(encr(math::rgbToSrgb(f32x4(v)).getX(), 1048576)); g.push_back(encr(math::srgbToRgb(f32x4(v)).getY(), 1048576)); }
		Ev("mono").a("x", Ints(x.begin(), x.end())).a("f", f).a("g", g).end();
		{	// beyond the unit interval: light below zero goes by the linear piece, brighter light by the curve
			int u[3]; for (auto& v : u) v = r.range(0, 3) ? -r.range(0, 4096) : -r.range(0, 64); f32x4 lo = f32x4(u[0] / 1024.0f, u[1] / 1024.0f, u[2] / 1024.0f, al / 16.0f);
			f32x4 f = math::rgbToSrgb(lo), g = math::srgbToRgb(lo), b1 = math::srgbToRgb(f), b2 = math::rgbToSrgb(g);
			Ev("below").a("x", ints(u, 3)).i("a", al).a("f", r4(f, 102400)).a("g", r4(g, 10240000)).a("b1", r4(b1, 10240000)).a("b2", r4(b2, 102400)).a("w", { enc(f.getW(), 4), enc(g.getW(), 4) }).end();
			int n = r.range(2, 5), d = r.range(1, n); double m = (double)n / d; // (n/d)^5 of the curve is (n/d)^12 of light
			f32x4 s((float)(1.055 * std::pow(m, 5) - 0.055)), t((float)std::pow(m, 12)); if (d == n) s = t = f32x4::one;
			Ev("bright").i("n", n).i("d", d).i("g", encr(std::pow((double)math::srgbToRgb(s).getY(), 1 / 12.0), 65536)).i("f", encr(std::pow((math::rgbToSrgb(t).getZ() + 0.055) / 1.055, 0.2), 65536)).end();
		}
		int c[3]; for (auto& v : c) v = r.range(0, 9) ? r.range(0, 32) : r.range(-32, 32);
		if (i < 4) { c[0] = i == 3 || i == 0 ? 16 : 0; c[1] = i == 3 || i == 1 ? 16 : 0; c[2] = i == 3 || i == 2 ? 16 : 0; }
		float S = unit(r); f32x4 rgb(c[0] / 16.0f * S, c[1] / 16.0f * S, c[2] / 16.0f * S, r.range(-9, 9)), xyz = math::rgbToXyz(rgb), rb = math::xyzToRgb(xyz);
		Ev("xyz").a("c", ints(c, 3)).a("xyz", r4(xyz, 160000 / S)).a("back", r4(rb, 16 * 256 / S)).end();
		int p[3] = { r.range(0, 40), r.range(1, 40), r.range(0, 40) };
		S = unit(r); f32x4 v(p[0] / 16.0f * S, p[1] / 16.0f * S, p[2] / 16.0f * S, r.range(-9, 9)), y = math::xyzToYxy(v), vb = math::yxyToXyz(y);
		f32x4 a1 = math::rgbToYxy(v), a2 = math::xyzToYxy(math::rgbToXyz(v)), b1 = math::yxyToRgb(y), b2 = math::xyzToRgb(math::yxyToXyz(y)); bool comp = true;
		for (int j = 0; j < 3; j++) comp = comp && std::fabs(a1[j] - a2[j]) <= 1e-4f * ((j ? 1 : S) + std::fabs(a2[j])) && std::fabs(b1[j] - b2[j]) <= 1e-4f * (S + std::fabs(b2[j]));
		Ev("yxy").a("c", ints(p, 3)).a("yxy", { encr(y[0], 65536 / S), encr(y[1], 65536), encr(y[2], 65536) }).a("back", r4(vb, 16 * 256 / S)).b("comp", comp).end();
		int gx[3] = { r.range(0, 32), r.range(0, 32), r.range(0, 32) }; f32x4 gc(gx[0] / 16.0f, gx[1] / 16.0f, gx[2] / 16.0f, al / 16.0f);
		f32x4 g1 = math::fastGammaCorrection(gc), g2 = math::fastGammaCorrection(gc, 1.0f), g3 = math::fastGammaCorrection(gc, 0.5f);
		Ev("gamma").a("x", ints(gx, 3)).i("a", al).a("def", r4(g1, 1048576)).a("one", r4(g2, 1048576)).a("half", r4(g3, 1048576)).a("w", { enc(g1.getW(), 4), enc(g2.getW(), 4), enc(g3.getW(), 4) }).end();
	}
}

int main(int argc, char** argv)
{
	Args g = init(argc, argv); Rng r(g.seed);
	if (g.mode == "cube")
	{
		for (uint32 n = 1; n <= (g.thorough ? 24u : 8u); n++) for (uint32 f = 0; f < 6; f++) for (uint32 y = 0; y < n; y++) for (uint32 x = 0; x < n; x++) { rec.episode(); cube(n, f, x, y); }
		for (int i = 0; i < (g.thorough ? 60000 : 4000); i++) { rec.episode(); uint32 n = r.coin() ? 1u << r.range(0, 11) : (uint32)r.range(1, 2000); cube(n, r.range(0, 5), r.range(0, n - 1), r.range(0, n - 1)); }
	}
	else if (g.mode == "samples") samples(r, g.thorough);
	else if (g.mode == "harmonics") harmonics(r, g.thorough);
	else if (g.mode == "minima") minima(r, g.thorough);
	else if (g.mode == "spaces") spaces(r, g.thorough);
	else { fprintf(stderr, "unknown mode\n"); return 3; }
	return 0;
}
