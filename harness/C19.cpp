#include <cstdlib>
#include <cstdio>
#include <new>
#include <unordered_set>
// every block requested by library code or operator new, tracked (linked with --wrap)
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
struct Tab { void *p[1 << 16]; int n; bool on; }; static Tab T;
static void add(void *p) { if (T.on && p && T.n < (1 << 16)) T.p[T.n++] = p; }
static bool del(void *p) { for (int i = T.n - 1; i >= 0; i--) if (T.p[i] == p) { T.p[i] = T.p[--T.n]; return true; } return false; }
extern "C" void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); add(p); return p; }
extern "C" void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); add(p); return p; }
extern "C" void *__wrap_realloc(void *q, size_t n) { del(q); void *p = __real_realloc(q, n); add(p); return p; }
extern "C" void __wrap_free(void *p) { if (p) del(p); __real_free(p); }
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); add(p); return p; }
void *operator new[](size_t n) { void *p = __real_malloc(n ? n : 1); add(p); return p; }
void operator delete(void *p) noexcept { if (p) del(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { if (p) del(p); __real_free(p); }
void operator delete[](void *p) noexcept { if (p) del(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) del(p); __real_free(p); }
#include "common.hpp"
static void track(bool b) { T.on = b; if (b) T.n = 0; }
void run() {
	for (int c = 0; c < nc(36); c++) {
		Par p = rcell(c % 2 ? 3 : 2, 4); p.mp[4] = ri(0, 1) ? 0 : 1e3; if (c < 4) for (int i = 0; i < 3; i++) p.size[i] = 2; if (c == 4 || c == 5) { p.size[0] = 2; p.size[1] = 5; p.size[2] = 2; }
		if (p.type == 0 && !sharp(p)) continue; p.str(); Ref r(p);
		track(true);
		micropp_t *m = p.make(); int G = ri(0, 3);
		for (int g = 0; g < G; g++) { double e[6]; reps(r, e); m->set_macro_strain(g, e); }
		m->homogenize(); m->update_vars(); m->homogenize(); m->write_info_files(); m->output(1, 0); m->output(1, 99);
		double s[6]; m->calc_fields(); m->calc_ave_strain(s);
		delete m;
		int left = T.n; track(false);
		REQ(left == 0, "%d blocks are still allocated after the cell was destroyed (%d Gauss points)", left, G);
	}
	for (int c = 0; c < nc(60); c++) {
		int dim = c % 2 ? 3 : 2, nF = 1 + c / 2 % 3, nx = ri(2, 5), ny = ri(2, 5), nz = dim == 2 ? 1 : ri(2, 4), a, b, g;
		if (c < 8) { nx = 2; ny = 2 + c % 3; if (dim == 3) nz = 2 + c / 4; }
		const char *sz = getenv("MVC_SIZES"); if (sz && c < 6 && sscanf(sz, "%d,%d,%d", &a, &b, &g) == 3) { nx = a; ny = b; nz = dim == 2 ? 1 : g; }
		desc("ell matrix dim=%d nFields=%d %dx%dx%d", dim, nF, nx, ny, nz); ncases++;
		track(true); ell_matrix m; if (dim == 2) ell_init_2D(&m, nF, nx, ny); else ell_init_3D(&m, nF, nx, ny, nz);
		T.on = false; int n = m.nrow, npe = dim == 2 ? 4 : 8; double *x = new double[n], *y = new double[n], *A = new double[npe * nF * npe * nF];
		for (int i = 0; i < n; i++) { x[i] = rr(-1, 1); y[i] = 0; } for (int i = 0; i < npe * nF * npe * nF; i++) A[i] = i % (npe * nF + 1) ? 0.01 : 1; T.on = true;
		for (int ex = 0; ex < nx - 1; ex++) for (int ey = 0; ey < ny - 1; ey++) for (int ez = 0; ez < (dim == 2 ? 1 : nz - 1); ez++) if (dim == 2) ell_add_struct2D(&m, ex, ey, A, nF, nx, ny); else ell_add_struct3D(&m, ex, ey, ez, A, nF, nx, ny, nz);
		if (dim == 2) ell_set_bc_2D(&m, nF, nx, ny); else ell_set_bc_3D(&m, nF, nx, ny, nz);
		int before = T.n; ell_solver s; s.max_its = 20; s.min_tol = 1e-9;
		ell_solve_cgpd_struct(&s, &m, nF, dim, nx * ny * nz, x, y); REQ(T.n == before, "cgpd_struct left %d blocks", T.n - before);
		if (dim == 2) { ell_solve_cgpd_2D(&s, &m, nF, nx, ny, x, y); REQ(T.n == before, "cgpd_2D left %d blocks", T.n - before); ell_solve_jacobi_2D(&s, &m, nF, nx, ny, x, y); REQ(T.n == before, "jacobi_2D left %d blocks", T.n - before); }
		ell_mvp_2D(&m, x, y); ell_set_zero_mat(&m);
		ell_free(&m); REQ(T.n == 0, "the matrix left %d blocks", T.n); track(false);
		delete[] x; delete[] y; delete[] A;
	}
}
