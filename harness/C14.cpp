#include "common.hpp"
// one Gauss point on a cell of its own, from primitive steps only
struct One {
	const Par &p; Ref r; micropp_t *m; std::vector<double> hist; bool yielded, bad = false; double sig[6], ctan[36]; bool lin;
	One(const Par &q) : p(q), r(q), hist(r.nelem * 56, 0.0), yielded(false) { m = p.make(); }
	~One() { delete m; }
	bool solve(const double *e, double *s, double *trial) {
		double t[6]; memcpy(t, e, sizeof t); memcpy(m->vars_old, hist.data(), hist.size() * 8);
		bool nl; int its; double err; m->set_displ(t); m->newton_raphson(&nl, &its, &err);
		// the response belongs to the equilibrium state
		for (int k = 0; k < 3 && its > 0; k++) m->newton_raphson(&nl, &its, &err);
		if (!(err <= 1e-5)) bad = true;
		for (int v = 0; v < 6; v++) s[v] = 0;
		m->calc_ave_stress(s); if (trial) memcpy(trial, m->vars_new, hist.size() * 8);
		return nl;
	}
};
static double linear_stress(One &o, const double *L, const double *e, double *s) { int n = o.r.nvoi; double t = 0; for (int i = 0; i < n; i++) { s[i] = 0; for (int j = 0; j < n; j++) s[i] += L[i * n + j] * e[j]; if (i < o.r.dim) t += s[i]; } return t; }
void run() {
	for (int c = 0; c < nc(14); c++) {
		bool lng = c % 7 == 6;   // a long history of a small cell with many points
		Par p = rcell(c % 4 == 0 ? 2 : 3, lng ? 2 : c % 2 ? 4 : 3); Ref r0(p); int n = r0.nvoi;
		if (r0.dim == 3) p.mt[ri(0, 1)] = 1;
		p.mp[4] = p.pr[0] * pow(10, rr(-4, -2)); if (c % 5 == 1) p.mp[4] = 1e20; if (c % 5 == 2) p.mp[4] = 0;
		p.str(); micropp_t *m = p.make();
		std::vector<One *> o; std::vector<int> ids; int G = lng ? ri(6, 9) : ri(1, 3);
		for (int g = 0; g < G; g++) { o.push_back(new One(p)); ids.push_back(ri(0, 1) ? 100 * g + 3 : 40 - g); }
		double L[36], E = std::max(r0.E(0), r0.E(1));
		{   // linear tangent: response of the virgin cell per unit strain
			One v(p);
			for (int i = 0; i < n; i++) { double e[6] = {0}, s[6]; e[i] = 1e-8; v.solve(e, s, NULL); for (int k = 0; k < n; k++) { L[k * n + i] = s[k] / 1e-8; } }
			for (int i = 0; i < n * n; i++) NEAR(m->ctan_lin[i], L[i], 2e-2 * E, "linear tangent entry (%d,%d)", i / n, i % n);
			// affine-exact check where the cell is homogeneous
			memcpy(L, m->ctan_lin, sizeof L);
		}
		bool skip = false;
		for (int step = 0; step < (lng ? 20 : 3) && !skip; step++) {
			std::vector<std::vector<double>> e(G, std::vector<double>(6, 0.0));
			for (int g = 0; g < G; g++) { double sc = pow(10, rr(-4.3, -2.3)); for (int i = 0; i < n; i++) e[g][i] = sc * rr(-1, 1); m->set_macro_strain(ids[g], e[g].data()); }
			m->homogenize();
			for (int g = 0; g < G; g++) {
				One &q = *o[g]; double s[6], t[6], C[36], ls[6]; std::vector<double> tr(q.hist.size());
				double I1 = linear_stress(q, L, e[g].data(), ls);
				if (fabs(fabs(I1) - p.mp[4]) < 1e-6 * E * amax(e[g].data(), 6)) { skip = true; break; }
				for (int v = 0; v < 6; v++) s[v] = 77; for (int v = 0; v < 36; v++) C[v] = 77;
				m->get_macro_stress(ids[g], s); m->get_macro_ctan(ids[g], C);
				double ss = E * amax(e[g].data(), 6);
				if (fabs(I1) < p.mp[4] && !q.yielded) {
					for (int v = 0; v < n; v++) NEAR(s[v], ls[v], 1e-9 * ss, "step %d point %d (id %d): linear stress %d", step, g, ids[g], v);
					for (int v = 0; v < n * n; v++) NEAR(C[v], L[v], 1e-9 * E, "step %d point %d: linear tangent (%d,%d)", step, g, v / n, v % n);
					continue;
				}
				bool nl = q.solve(e[g].data(), t, tr.data());
				for (auto &gp : m->gauss_list) if (gp.id == ids[g]) for (int i = 0; i < 1 + n; i++) if (!(gp.nr_err[i] <= 1e-5)) q.bad = true;
				if (q.bad) { skip = true; break; }   // no equilibrium was reached: nothing to compare
				for (int v = 0; v < n; v++) NEAR(s[v], t[v], 1e-4 * ss + 1e-3, "step %d point %d (id %d): average stress %d", step, g, ids[g], v);
				for (int i = 0; i < n; i++) { double x[6], w[6]; memcpy(x, e[g].data(), sizeof x); x[i] += 1e-8; q.solve(x, w, NULL); if (q.bad) { skip = true; break; }
					for (int v = 0; v < n; v++) NEAR(C[v * n + i], (w[v] - t[v]) / 1e-8, 6e-2 * E, "step %d point %d (id %d): tangent (%d,%d)", step, g, ids[g], v, i); }
				if (skip) break;
				if (nl) q.yielded = true;
				if (q.yielded) q.hist = tr;
			}
			m->update_vars();
		}
		for (auto q : o) delete q; delete m;
	}
}
