// Common trace recorder used by all harnesses: one ndjson event per public call of the library.
#pragma once
#include <cassert>
#include <cstdlib>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <unistd.h>
#include <sys/stat.h>

namespace h
{
typedef std::vector<long long> Ints;

// Sentinels for values that are not exact multiples of the scale (never reachable by lattice arithmetic).
static const long long NaN = 2000000001, Inf = 2000000002, MinusInf = -2000000002, Inexact = 2000000003, Big = 2000000004;

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint32_t u32() { return (uint32_t)(next() >> 32); }
	int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)((long long)hi - lo + 1)); } // inclusive
	bool coin() { return next() >> 63; }
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
	template<class V> auto pickv(const V& v) -> decltype(v[0]) { return v[next() % v.size()]; }
};

// Exact encoding of v * 2^scale, or a sentinel.
static inline long long enc(double v, int scale = 0)
{
	if (std::isnan(v)) return NaN;
	if (std::isinf(v)) return v > 0 ? Inf : MinusInf;
	double x = std::ldexp(v, scale);
	if (std::fabs(x) > 1.0e9) return Big;
	if (x != std::floor(x)) return Inexact;
	return (long long)x;
}
// Rounded encoding of v * unit for tolerance checks.
static inline long long encr(double v, double unit)
{
	if (std::isnan(v)) return NaN;
	if (std::isinf(v)) return v > 0 ? Inf : MinusInf;
	double x = v * unit;
	if (std::fabs(x) > 1.0e9) return Big;
	return (long long)std::llround(x);
}

struct Recorder
{
	std::string dir; int file = 0; size_t events = 0, total = 0, perFile = 4000; FILE* f = nullptr;
	const char* prefix = "t";
	void open()
	{
		if (f) fclose(f);
		char name[64]; snprintf(name, sizeof name, "/%s-%03d.ndjson", prefix, file++);
		f = fopen((dir + name).c_str(), "w"); events = 0;
		if (!f) { perror("open trace"); exit(3); }
	}
	// Call between independent episodes: rotates the file when it is long enough.
	void episode() { if (!f || events >= perFile) open(); }
	~Recorder() { if (f) fclose(f); }
};
static Recorder rec;

struct Ev
{
	std::string s;
	explicit Ev(const char* op) { s = "{\"op\":\""; s += op; s += "\""; }
	Ev& i(const char* k, long long v) { s += ",\""; s += k; s += "\":"; s += std::to_string(v); return *this; }
	Ev& t(const char* k, const std::string& v) { s += ",\""; s += k; s += "\":\""; s += v; s += "\""; return *this; }
	Ev& b(const char* k, bool v) { s += ",\""; s += k; s += v ? "\":true" : "\":false"; return *this; }
	Ev& bs(const char* k, std::initializer_list<bool> v)
	{
		s += ",\""; s += k; s += "\":["; bool first = true;
		for (bool x : v) { if (!first) s += ","; first = false; s += x ? "true" : "false"; }
		s += "]"; return *this;
	}
	Ev& l(const char* k, const std::vector<const char*>& v)
	{
		s += ",\""; s += k; s += "\":[";
		for (size_t n = 0; n < v.size(); n++) { if (n) s += ','; s += '"'; s += v[n]; s += '"'; }
		s += ']'; return *this;
	}
	Ev& a(const char* k, const Ints& v)
	{
		s += ",\""; s += k; s += "\":[";
		for (size_t n = 0; n < v.size(); n++) { if (n) s += ','; s += std::to_string(v[n]); }
		s += ']'; return *this;
	}
	Ev& aa(const char* k, const std::vector<Ints>& v)
	{
		s += ",\""; s += k; s += "\":[";
		for (size_t n = 0; n < v.size(); n++)
		{
			if (n) s += ',';
			s += '[';
			for (size_t m = 0; m < v[n].size(); m++) { if (m) s += ','; s += std::to_string(v[n][m]); }
			s += ']';
		}
		s += ']'; return *this;
	}
	void end()
	{
		if (!rec.f) rec.open();
		s += "}\n"; fputs(s.c_str(), rec.f); rec.events++; rec.total++;
	}
};

static inline void push32(Ints& v, uint32_t x) { v.push_back(x >> 16); v.push_back(x & 0xFFFF); }

// Scripts of operations enumerated by TLC: "<tag> <int> <int> ..." per line.
static inline std::vector<std::vector<int>> readScript(const char* path, const char* tag)
{
	std::vector<std::vector<int>> r; std::ifstream in(path); std::string line;
	while (std::getline(in, line))
	{
		std::istringstream is(line); std::string t; is >> t;
		if (t != tag) continue;
		std::vector<int> v; int x; while (is >> x) v.push_back(x);
		r.push_back(v);
	}
	return r;
}

struct Args { std::string mode; uint64_t seed; bool thorough; const char* script; };
static inline Args init(int argc, char** argv)
{
	if (argc < 6) { fprintf(stderr, "usage: %s mode seed tier outdir script\n", argv[0]); exit(3); }
	rec.dir = argv[4];
	return Args{ argv[1], (uint64_t)strtoull(argv[2], 0, 10), !strcmp(argv[3], "thorough"), argv[5] };
}
} // namespace h
