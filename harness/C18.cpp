#include "common.hpp"
#include <new>
// a cell built in storage filled with a pattern; malloc'd memory is filled too (ASAN_OPTIONS)
static micropp_t *at(void *mem, int fill, const Par &p) { memset(mem, fill, sizeof(micropp_t)); return new (mem) micropp_t(p.dim, p.size, p.type, p.mp, p.mt, p.pr); }
void run() {
	void *A = ::operator new(sizeof(micropp_t)), *B = ::operator new(sizeof(micropp_t));
	for (int c = 0; c < nc(40); c++) {
		Par p = rcell(c % 3 == 0 ? 2 : 3, 4); if (c % 4 == 0) p.mp[4] = 0; p.str(); Ref r(p);
		micropp_t *m = at(A, 0xff, p), *z = at(B, 0x00, p); int n = r.nvoi, N = r.nn * r.dim;
		REQ(m->dim == p.dim && m->nx == r.nx && m->ny == r.ny && m->nz == r.nz && m->nn == r.nn && m->npe == r.npe && m->nvoi == n && m->nelem == r.nelem && m->micro_type == p.type, "grid sizes");
		REQ(m->num_int_vars == r.nelem * 56, "history size %d", m->num_int_vars);
		NEAR(m->lx, r.l[0], 1e-12, "lx"); NEAR(m->ly, r.l[1], 1e-12, "ly"); NEAR(m->dx, r.d[0], 1e-12, "dx"); NEAR(m->dy, r.d[1], 1e-12, "dy");
		if (r.dim == 3) { NEAR(m->lz, r.l[2], 1e-12, "lz"); NEAR(m->dz, r.d[2], 1e-12, "dz"); }
		REQ(m->width == p.mp[3], "width %g", m->width); REQ(m->inv_tol == p.mp[4], "screening tolerance is %g, given %g", m->inv_tol, p.mp[4]);
		REQ(m->numMaterials == 2, "number of materials");
		for (int w = 0; w < 2; w++) {
			material_t &t = m->material_list[w]; double E = p.pr[w * 10], nu = p.pr[w * 10 + 1];
			REQ(t.E == E && t.nu == nu && t.Sy == p.pr[w * 10 + 2] && t.Ka == p.pr[w * 10 + 3] && t.plasticity == (p.mt[w] == 1) && t.damage == (p.mt[w] == 2), "material %d", w);
			NEAR(t.lambda, r.lam(w), 1e-9 * E, "lambda"); NEAR(t.mu, r.mu(w), 1e-9 * E, "mu"); NEAR(t.k, E / (3 * (1 - 2 * nu)), 1e-8 * E, "bulk modulus");
		}
		r.each([&](int x, int y, int k) { REQ(m->elem_type[r.elem(x, y, k)] == r.phase(x, y, k), "phase of element (%d,%d,%d)", x, y, k); });
		REQ(m->gauss_list.empty(), "a new cell has Gauss points");
		for (int i = 0; i < r.nelem * 56; i++) REQ(m->vars_old[i] == 0, "history variable %d of a new cell is %g", i, m->vars_old[i]);
		// linear tangent of a cell with zero history
		micropp_t *q = p.make();
		memset(q->vars_old, 0, r.nelem * 56 * 8); memset(q->u, 0, N * 8);
		for (int i = 0; i < n; i++) {
			double e[6] = {0}, s[6]; e[i] = 1e-8; bool nl; int its; double err; q->set_displ(e); q->newton_raphson(&nl, &its, &err); q->calc_ave_stress(s);
			for (int v = 0; v < n; v++) NEAR(m->ctan_lin[v * n + i], s[v] / 1e-8, 2e-2 * std::max(r.E(0), r.E(1)), "linear tangent (%d,%d)", v, i);
		}
		// nothing depends on what the storage held before
		for (int i = 0; i < N; i++) REQ(m->u[i] == z->u[i], "initial displacement %d depends on the storage: %g %g", i, m->u[i], z->u[i]);
		for (int i = 0; i < n * n; i++) REQ(m->ctan_lin[i] == z->ctan_lin[i], "linear tangent depends on the storage");
		double e[6]; reps(r, e); micropp_t *mm[2] = {m, z};
		double S[2][6], C[2][36]; int F[2];
		for (int k = 0; k < 2; k++) { for (int i = 0; i < 6; i++) S[k][i] = 0; for (int i = 0; i < 36; i++) C[k][i] = 0;
			mm[k]->set_macro_strain(3, e); mm[k]->get_macro_stress(3, S[k]); mm[k]->get_macro_ctan(3, C[k]);
			for (int i = 0; i < n; i++) REQ(S[k][i] == 0, "a new Gauss point has stress %g", S[k][i]); for (int i = 0; i < n * n; i++) REQ(C[k][i] == 0, "a new Gauss point has tangent %g", C[k][i]);
			mm[k]->homogenize(); mm[k]->update_vars(); double e2[6]; for (int i = 0; i < 6; i++) e2[i] = 1.5 * e[i]; mm[k]->set_macro_strain(3, e2); mm[k]->homogenize();
			mm[k]->get_macro_stress(3, S[k]); mm[k]->get_macro_ctan(3, C[k]); mm[k]->get_nl_flag(3, &F[k]); mm[k]->write_info_files(); }
		REQ(!memcmp(S[0], S[1], sizeof(double) * n) && !memcmp(C[0], C[1], sizeof(double) * n * n) && F[0] == F[1], "a homogenised result depends on uninitialised storage");
		const gp_t &g0 = m->gauss_list.front(), &g1 = z->gauss_list.front();
		REQ(g0.inv_max == g1.inv_max && !memcmp(g0.nr_its, g1.nr_its, 4 * (1 + n)) && !memcmp(g0.nr_err, g1.nr_err, 8 * (1 + n)), "convergence data depends on uninitialised storage");
		for (int i = 0; i < N; i++) REQ(m->u[i] == z->u[i], "displacement depends on uninitialised storage");
		for (int i = 0; i < r.nelem * 56; i++) REQ(m->vars_new[i] == z->vars_new[i], "trial history depends on uninitialised storage");
		delete q; m->~micropp_t(); z->~micropp_t();
	}
}
