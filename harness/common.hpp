// Replay harness: concrete executions of /repo's code against oracles written
// independently of it. It turns a failed proof obligation into a failing input,
// and stands in (bounded) where an obligation could not be generated.
#pragma once
#include <vector>
#include <list>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <algorithm>
#define private public
#include "micro.hpp"
#undef private

static unsigned long long rng_s = 88172645463325252ULL;
static unsigned long long rnd() { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return rng_s; }
static int ri(int a, int b) { return a + (int)(rnd() % (unsigned long long)(b - a + 1)); }
static double rr(double a, double b) { return a + (b - a) * ((rnd() >> 11) / 9007199254740992.0); }

static bool thorough = false;
static long ncases = 0;
static std::string casedesc;
static void desc(const char *f, ...) { char t[2000]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); casedesc = t; }
static void fail(const char *f, ...) {
	char t[2000]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a);
	printf("FAIL %s\n  case: %s\n", t, casedesc.c_str()); fflush(stdout); _Exit(1);
}
static bool close_(double a, double b, double tol) { return fabs(a - b) <= tol; }   // false for NaN
#define REQ(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
#define NEAR(a, b, tol, ...) do { double a_ = (a), b_ = (b); if (!close_(a_, b_, tol)) { char m_[600]; snprintf(m_, sizeof m_, __VA_ARGS__); fail("%s: got %.17g, expected %.17g (tolerance %g)", m_, a_, b_, (double)(tol)); } } while (0)

// ---------------------------------------------------------------- cells
struct Par {
	int dim, size[3], type; double mp[5]; int mt[2]; double pr[20];
	void str() const {
		desc("dim=%d size=%dx%dx%d micro_type=%d params={%g,%g,%g,%g,%g} mat_types={%d,%d} E={%g,%g} nu={%g,%g} Sy={%g,%g} Ka={%g,%g}",
		     dim, size[0], size[1], size[2], type, mp[0], mp[1], mp[2], mp[3], mp[4], mt[0], mt[1],
		     pr[0], pr[10], pr[1], pr[11], pr[2], pr[12], pr[3], pr[13]);
	}
	micropp_t *make() const { return new micropp_t(dim, size, type, mp, mt, pr); }
};

static Par rpar(int dim, int maxn = 5, double E = 1e7) {
	// now and then a sibling of the previous cell, different in one argument: nothing may leak from cell to cell
	static std::map<int, std::pair<double, Par>> prev; auto it = prev.find(dim);
	if (it != prev.end() && it->second.first == E && ri(0, 4) == 0) {
		Par q = it->second.second; bool fits = true; for (int i = 0; i < 3; i++) fits = fits && q.size[i] <= maxn;
		int k = ri(0, 9), m = ri(0, 1) * 10;
		if (k == 0) { q.type = !q.type; if (q.type == 1 && q.mp[3] > q.mp[1]) q.mp[3] = q.mp[1]; }
		if (k == 1) q.mp[3] *= rr(0.3, 1);
		if (k == 2) q.pr[m] *= rr(0.5, 2);
		if (k == 3) q.pr[m + 1] = rr(0.05, 0.4);
		if (k == 4) q.pr[m + 2] *= rr(0.3, 1);
		if (k == 5) q.pr[m + 3] *= rr(0.3, 1);
		if (k == 6) q.mt[m / 10] = (q.mt[m / 10] + 1) % 3;
		if (k == 7) { int a = ri(0, 2); q.mp[a] *= rr(1, 1.5); }
		if (k == 8) std::swap(q.size[0], q.size[1]);
		if (fits) { it->second.second = q; return q; }
	}
	Par p; memset(&p, 0, sizeof p); p.dim = dim;
	// sizes from the verifier's model, when there is one
	for (int i = 0; i < 3; i++) p.size[i] = ri(2, maxn);
	const char *s = getenv("MVC_SIZES"); int a, b, c;
	if (s && ncases < 4 && sscanf(s, "%d,%d,%d", &a, &b, &c) == 3) { p.size[0] = a; p.size[1] = b; p.size[2] = c; }
	if (dim == 2) p.size[2] = ri(1, 4);
	p.type = ri(0, 1);
	for (int i = 0; i < 3; i++) p.mp[i] = rr(0.5, 3);
	double l = std::min(p.mp[0], p.mp[1]);
	p.mp[3] = p.type == 0 ? rr(0.1, 0.7) * l : rr(0.0, 1.0) * p.mp[1];
	p.mp[4] = rr(0.5, 2);
	for (int i = 0; i < 2; i++) {
		p.mt[i] = ri(0, 2);
		if (dim == 3 && ri(0, 2)) p.mt[i] = 1;
		p.pr[i * 10 + 0] = E * rr(0.2, 3);
		p.pr[i * 10 + 1] = rr(0.05, 0.4);
		p.pr[i * 10 + 2] = p.pr[i * 10] * rr(1e-4, 2e-3);
		p.pr[i * 10 + 3] = p.pr[i * 10] * rr(0.01, 0.3);
	}
	prev[dim] = std::make_pair(E, p);
	return p;
}

// ---------------------------------------------------------------- reference
struct Ref {
	const Par &p; int dim, nx, ny, nz, nn, npe, nvoi, nelem; double l[3], d[3], width;
	Ref(const Par &q) : p(q) {
		dim = q.dim; nx = q.size[0]; ny = q.size[1]; nz = dim == 2 ? 1 : q.size[2]; nn = nx * ny * nz;
		npe = dim == 2 ? 4 : 8; nvoi = dim == 2 ? 3 : 6;
		nelem = (nx - 1) * (ny - 1) * (dim == 2 ? 1 : nz - 1);
		for (int i = 0; i < 3; i++) l[i] = q.mp[i];
		d[0] = l[0] / (nx - 1); d[1] = l[1] / (ny - 1); d[2] = dim == 2 ? 1 : l[2] / (nz - 1);
		width = q.mp[3];
	}
	int node(int i, int j, int k) const { return (k * ny + j) * nx + i; }
	int elem(int i, int j, int k) const { return (k * (ny - 1) + j) * (nx - 1) + i; }
	bool boundary(int i, int j, int k) const {
		return i == 0 || i == nx - 1 || j == 0 || j == ny - 1 || (dim == 3 && (k == 0 || k == nz - 1));
	}
	bool bnode(int n) const { return boundary(n % nx, n / nx % ny, n / (nx * ny)); }
	static int sgn(int c, int a) {           // sign of corner c along axis a
		static const int s[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
		return s[c][a];
	}
	int corner(int c, int ex, int ey, int ez) const {
		return node(ex + (sgn(c, 0) > 0), ey + (sgn(c, 1) > 0), dim == 2 ? 0 : ez + (sgn(c, 2) > 0));
	}
	double grad(int c, int gp, int a) const {  // d N_c / d x_a at point gp
		double g = 1 / sqrt(3.0), v = sgn(c, a) / 2.0;
		for (int b = 0; b < dim; b++) if (b != a) v *= (1 + sgn(c, b) * sgn(gp, b) * g) / 2;
		return v * 2 / d[a];
	}
	double B(int v, int gp, int i) const {     // strain operator row v, unknown i
		int c = i / dim, a = i % dim;
		static const int s2[1][2] = {{0,1}}; static const int s3[3][2] = {{0,1},{0,2},{1,2}};
		if (v < dim) return a == v ? grad(c, gp, a) : 0;
		const int *s = dim == 2 ? s2[v - 2] : s3[v - 3];
		if (a == s[0]) return grad(c, gp, s[1]);
		if (a == s[1]) return grad(c, gp, s[0]);
		return 0;
	}
	void strain(const double *u, int ex, int ey, int ez, int gp, double *e) const {
		for (int v = 0; v < nvoi; v++) {
			e[v] = 0;
			for (int i = 0; i < npe * dim; i++) e[v] += B(v, gp, i) * u[corner(i / dim, ex, ey, ez) * dim + i % dim];
		}
	}
	double w() const { return dim == 2 ? d[0] * d[1] / 4 : d[0] * d[1] * d[2] / 8; }
	double vol() const { return dim == 2 ? l[0] * l[1] : l[0] * l[1] * l[2]; }
	int phase(int ex, int ey, int ez) const {
		double c[3] = {(ex + .5) * d[0], (ey + .5) * d[1], (ez + .5) * d[2]}, r = 0;
		if (p.type == 1) return c[1] < width;
		for (int a = 0; a < dim; a++) r += (c[a] - l[a] / 2) * (c[a] - l[a] / 2);
		return r < width * width;
	}
	bool phase_sharp(int ex, int ey, int ez) const {   // far enough from the interface to decide in doubles
		double c[3] = {(ex + .5) * d[0], (ey + .5) * d[1], (ez + .5) * d[2]}, r = 0;
		if (p.type == 1) return fabs(c[1] - width) > 1e-9;
		for (int a = 0; a < dim; a++) r += (c[a] - l[a] / 2) * (c[a] - l[a] / 2);
		return fabs(r - width * width) > 1e-9;
	}
	double E(int m) const { return p.pr[m * 10]; }
	double nu(int m) const { return p.pr[m * 10 + 1]; }
	double lam(int m) const { return E(m) * nu(m) / ((1 + nu(m)) * (1 - 2 * nu(m))); }
	double mu(int m) const { return E(m) / (2 * (1 + nu(m))); }
	bool plastic(int m) const { return dim == 3 && p.mt[m] == 1; }
	void hooke(int m, const double *e, double *s) const {
		double tr = 0;
		for (int i = 0; i < dim; i++) tr += e[i];
		for (int i = 0; i < nvoi; i++) s[i] = i < dim ? lam(m) * tr + 2 * mu(m) * e[i] : mu(m) * e[i];
	}
	// radial return, linear isotropic hardening evaluated at the old state as the code documents
	bool j2(int m, const double *e, const double *old, double *nw, double *s) const {
		double G = mu(m), tr = e[0] + e[1] + e[2], trp = old[0] + old[1] + old[2], t[6], nn2 = 0;
		for (int i = 0; i < 6; i++)
			t[i] = i < 3 ? 2 * G * (e[i] - tr / 3 - (old[i] - trp / 3)) : G * (e[i] - 2 * old[i]);
		for (int i = 0; i < 6; i++) nn2 += (i < 3 ? 1 : 2) * t[i] * t[i];
		double n = sqrt(nn2), f = n - sqrt(2.0 / 3) * (p.pr[m * 10 + 2] + p.pr[m * 10 + 3] * old[6]), dl = f > 0 ? f / (2 * G) : 0;
		double kb = E(m) / (3 * (1 - 2 * nu(m)));
		for (int i = 0; i < 6; i++) {
			double no = dl > 0 ? t[i] / n : 0;
			nw[i] = old[i] + dl * no;
			s[i] = t[i] - 2 * G * dl * no + (i < 3 ? kb * tr : 0);
		}
		nw[6] = old[6] + sqrt(2.0 / 3) * dl;
		return f > 0;
	}
	bool stress(int m, const double *e, const double *old, double *nw, double *s) const {
		if (plastic(m)) return j2(m, e, old, nw, s);
		hooke(m, e, s); return false;
	}
	void tangent(int m, const double *e, const double *old, double C[6][6]) const {
		double s0[6], s1[6], nw[7], x[6], h = 1e-8;
		if (!plastic(m)) {
			for (int j = 0; j < nvoi; j++) {
				for (int i = 0; i < nvoi; i++) x[i] = i == j;
				hooke(m, x, s1);
				for (int i = 0; i < nvoi; i++) C[i][j] = s1[i];
			}
			return;
		}
		j2(m, e, old, nw, s0);
		for (int j = 0; j < 6; j++) {
			for (int i = 0; i < 6; i++) x[i] = e[i] + (i == j ? h : 0);
			j2(m, x, old, nw, s1);
			for (int i = 0; i < 6; i++) C[i][j] = (s1[i] - s0[i]) / h;
		}
	}
	void each(const std::function<void(int, int, int)> &f) const {
		for (int k = 0; k < (dim == 2 ? 1 : nz - 1); k++) for (int j = 0; j < ny - 1; j++) for (int i = 0; i < nx - 1; i++) f(i, j, k);
	}
	const double *hist(const double *v, int ex, int ey, int ez, int gp) const { return v + (elem(ex, ey, ez) * 8 + gp) * 7; }
	double *hist(double *v, int ex, int ey, int ez, int gp) const { return v + (elem(ex, ey, ez) * 8 + gp) * 7; }
	// internal force; also trial histories and flag
	bool force(const double *u, const double *vold, double *vnew, double *F) const {
		bool nl = false;
		for (int i = 0; i < nn * dim; i++) F[i] = 0;
		each([&](int ex, int ey, int ez) {
			int m = phase(ex, ey, ez);
			for (int gp = 0; gp < npe; gp++) {
				double e[6], s[6], nw[7];
				strain(u, ex, ey, ez, gp, e);
				if (stress(m, e, hist(vold, ex, ey, ez, gp), nw, s)) nl = true;
				if (plastic(m) && vnew) memcpy(hist(vnew, ex, ey, ez, gp), nw, sizeof nw);
				for (int i = 0; i < npe * dim; i++) {
					double t = 0;
					for (int v = 0; v < nvoi; v++) t += B(v, gp, i) * s[v];
					F[corner(i / dim, ex, ey, ez) * dim + i % dim] += t * w();
				}
			}
		});
		return nl;
	}
	void kelem(const double *u, const double *vold, int ex, int ey, int ez, std::vector<double> &K) const {
		int n = npe * dim, m = phase(ex, ey, ez); K.assign(n * n, 0);
		for (int gp = 0; gp < npe; gp++) {
			double e[6], C[6][6];
			strain(u, ex, ey, ez, gp, e); tangent(m, e, hist(vold, ex, ey, ez, gp), C);
			for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
				for (int a = 0; a < nvoi; a++) for (int b = 0; b < nvoi; b++) K[i * n + j] += B(a, gp, i) * C[a][b] * B(b, gp, j) * w();
		}
	}
};

static bool sharp(const Par &p) { Ref r(p); bool ok = true; r.each([&](int i, int j, int k) { ok = ok && r.phase_sharp(i, j, k); }); return ok; }
static Par rcell(int dim, int maxn = 5, double E = 1e7) { for (;;) { Par p = rpar(dim, maxn, E); if (sharp(p)) { p.str(); ncases++; return p; } } }
static int nc(int quick) { return thorough ? quick * 8 : quick; }

// histories and displacements reaching elastic and plastic points
static void rhist(const Ref &r, double *v) {
	int n = r.nelem * 56; for (int i = 0; i < n; i++) v[i] = 0;
	for (int q = 0; q < r.nelem * 8; q++) {
		double *h = v + q * 7;
		if (ri(0, 3) == 0) continue;
		for (int i = 0; i < 6; i++) h[i] = rr(-1e-3, 1e-3);
		h[2] = -h[0] - h[1]; h[6] = rr(0, 2e-3);
	}
}
static void rdisp(const Ref &r, double *u) { double s = pow(10, rr(-5, -2)); for (int i = 0; i < r.nn * r.dim; i++) u[i] = s * rr(-1, 1); }
static void reps(const Ref &r, double *e) {
	static double last[2][6]; static bool have[2]; double *l = last[r.dim - 2];
	if (have[r.dim - 2] && ri(0, 4) == 0) { memcpy(e, l, 6 * sizeof *e); return; }   // the same strain again
	double s = pow(10, rr(-5, -2)); for (int i = 0; i < 6; i++) e[i] = i < r.nvoi ? s * rr(-1, 1) : 0;
	memcpy(l, e, 6 * sizeof *e); have[r.dim - 2] = true;
}
static double amax(const double *a, int n) { double m = 0; for (int i = 0; i < n; i++) if (!(fabs(a[i]) <= m)) m = fabs(a[i]); return m; }
static std::vector<double> snap(const double *a, int n) { return std::vector<double>(a, a + n); }
static bool same(const std::vector<double> &a, const double *b) { for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], b + i, 8) && !(a[i] == b[i])) return false; return true; }

void run();
int main(int argc, char **argv) {
	if (argc > 1) { unsigned long long s = strtoull(argv[1], 0, 10); for (int i = 0; i < 20; i++) { rng_s ^= (s + 1) * 0x9E3779B97F4A7C15ULL; rnd(); } if (!rng_s) rng_s = 1; }
	if (argc > 2) thorough = !strcmp(argv[2], "thorough");
	run();
	printf("OK cases=%ld\n", ncases);
	return 0;
}
