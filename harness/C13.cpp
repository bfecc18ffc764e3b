#include "common.hpp"
void run() {
	for (int c = 0; c < nc(60); c++) {
		Par p = rcell(c % 3 == 0 ? 2 : 3, 5); Ref r(p); micropp_t *m = p.make(); int nv = r.nvoi;
		rdisp(r, m->u); rhist(r, m->vars_old); bool uni = c % 4 == 3; double e0[6]; reps(r, e0);
		if (uni) for (int n = 0; n < r.nn; n++) {
			double x[3] = {n % r.nx * r.d[0], n / r.nx % r.ny * r.d[1], r.dim == 2 ? 0 : n / (r.nx * r.ny) * r.d[2]}; double *u = m->u + n * r.dim;
			if (r.dim == 2) { u[0] = e0[0] * x[0] + e0[2] * x[1]; u[1] = e0[1] * x[1]; }
			else { u[0] = e0[0] * x[0] + e0[3] * x[1] + e0[4] * x[2]; u[1] = e0[1] * x[1] + e0[5] * x[2]; u[2] = e0[2] * x[2]; }
		}
		std::vector<double> S(nv, 0.0), T(nv, 0.0), es(r.nelem * nv, 0.0), et(r.nelem * nv, 0.0);
		r.each([&](int ex, int ey, int ez) { for (int gp = 0; gp < r.npe; gp++) {
			double e[6], s[6], nw[7]; r.strain(m->u, ex, ey, ez, gp, e); r.stress(r.phase(ex, ey, ez), e, r.hist(m->vars_old, ex, ey, ez, gp), nw, s);
			for (int v = 0; v < nv; v++) { S[v] += s[v] * r.w() / r.vol(); T[v] += e[v] * r.w() / r.vol(); es[r.elem(ex, ey, ez) * nv + v] += s[v] / r.npe; et[r.elem(ex, ey, ez) * nv + v] += e[v] / r.npe; } } });
		double a[6] = {1, 2, 3, 4, 5, 6}, b[6] = {1, 2, 3, 4, 5, 6};
		std::vector<double> o = snap(m->vars_old, r.nelem * 56);
		m->calc_ave_stress(a); m->calc_ave_strain(b); m->calc_fields();
		double se = amax(et.data(), et.size()) + 1e-12, ss = amax(es.data(), es.size()) + 1e-12;
		for (int v = 0; v < nv; v++) {
			NEAR(a[v], S[v], 1e-8 * ss, "average stress component %d", v); NEAR(b[v], T[v], 1e-8 * se, "average strain component %d", v);
			if (uni) NEAR(b[v], e0[v], 1e-8 * se, "uniform strain component %d", v);
		}
		for (int i = 0; i < r.nelem * nv; i++) { NEAR(m->elem_strain[i], et[i], 1e-8 * se, "strain %d of element %d", i % nv, i / nv); NEAR(m->elem_stress[i], es[i], 1e-8 * ss, "stress %d of element %d", i % nv, i / nv); }
		delete m;
	}
}
