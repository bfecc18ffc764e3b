#include "common.hpp"
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<double> arr(const std::string &t, const char *name, int comp) {
	std::string k = std::string("Name=\"") + name + "\""; size_t a = t.find(k); REQ(a != std::string::npos, "array %s is missing", name);
	REQ(t.find(k, a + 1) == std::string::npos, "array %s appears twice", name);
	size_t e = t.find('>', a), z = t.find("</DataArray>", e); REQ(e != std::string::npos && z != std::string::npos, "array %s is not closed", name);
	std::string head = t.substr(a, e - a); char w[60]; snprintf(w, sizeof w, "NumberOfComponents=\"%d\"", comp); REQ(head.find(w) != std::string::npos, "array %s: expected %s in %s", name, w, head.c_str());
	std::stringstream s(t.substr(e + 1, z - e - 1)); std::vector<double> v; std::string x; while (s >> x) { char *q; double d = strtod(x.c_str(), &q); REQ(*q == 0, "array %s: bad number %s", name, x.c_str()); v.push_back(d); } return v;
}
static void want(const std::string &t, const char *name, int comp, const std::vector<double> &w) {
	std::vector<double> v = arr(t, name, comp); REQ(v.size() == w.size(), "array %s has %zu entries, expected %zu", name, v.size(), w.size());
	for (size_t i = 0; i < v.size(); i++) NEAR(v[i], w[i], 2e-5 * fabs(w[i]) + 1e-14, "array %s entry %zu", name, i);
}
void run() {
	for (int c = 0; c < nc(36); c++) {
		Par p = rcell(c % 3 == 0 ? 2 : 3, 4); Ref r(p); micropp_t *m = p.make(); int N = r.nn * r.dim, nv = r.nvoi;
		rdisp(r, m->u); for (int i = 0; i < N; i++) m->b[i] = rr(-5, 5); rhist(r, m->vars_old); rhist(r, m->vars_new); for (int i = 0; i < r.nelem * nv; i++) { m->elem_strain[i] = rr(-1, 1); m->elem_stress[i] = rr(-1e4, 1e4); }
		bool full = c % 3 == 2;
		double e[6]; reps(r, e);
		double e9[6]; reps(r, e9);
		if (full) { double k = ri(0, 2) ? 1e-3 : 1; for (int i = 0; i < nv; i++) { e[i] *= k; e9[i] *= 3; } m->set_macro_strain(4, e); m->set_macro_strain(9, e9); m->homogenize(); m->update_vars(); m->homogenize(); }
		auto S = [&]() { std::vector<double> s; for (int i = 0; i < N; i++) { s.push_back(m->u[i]); s.push_back(m->b[i]); s.push_back(m->du[i]); } for (int i = 0; i < r.nelem * 56; i++) { s.push_back(m->vars_old[i]); s.push_back(m->vars_new[i]); }
			for (int i = 0; i < r.nelem * nv; i++) { s.push_back(m->elem_strain[i]); s.push_back(m->elem_stress[i]); } for (int i = 0; i < r.nelem; i++) s.push_back(m->elem_type[i]); for (int i = 0; i < nv * nv; i++) s.push_back(m->ctan_lin[i]); s.push_back(m->inv_max); for (int i = 0; i < m->A.nrow * m->A.nnz; i++) s.push_back(m->A.vals[i]); return s; };
		auto Gp = [&]() { std::vector<double> s; for (auto &g : m->gauss_list) { s.push_back(g.id); for (int i = 0; i < nv; i++) { s.push_back(g.macro_strain[i]); s.push_back(g.macro_stress[i]); } for (int i = 0; i < nv * nv; i++) s.push_back(g.macro_ctan[i]); if (g.int_vars_n) for (int i = 0; i < r.nelem * 56; i++) { s.push_back(g.int_vars_n[i]); s.push_back(g.int_vars_k[i]); } } return s; };
		int id = ri(-2, 30), ts = ri(0, 99); char fn[100];
		std::vector<double> g0 = Gp(), u0(m->u, m->u + N);
		if (full) { id = ri(0, 3) ? 4 : 9; if (id == 9) memcpy(e, e9, sizeof e); m->output(ts, id); } else { std::vector<double> s0 = S(); m->write_vtu(ts, id); REQ(same(s0, S().data()), "writing the file changed the cell"); }
		REQ(same(g0, Gp().data()), "writing the file changed a Gauss point");
		snprintf(fn, sizeof fn, "micropp_%d_%d.vtu", id, ts); std::string t = slurp(fn); remove(fn); REQ(!t.empty(), "file %s is missing", fn);
		if (full) {   // state shown is that point's equilibrium from its committed history
			const gp_t *g = NULL; for (auto &q : m->gauss_list) if (q.id == id) g = &q;
			for (int i = 0; i < r.nelem * 56; i++) REQ(m->vars_old[i] == (g->int_vars_n ? g->int_vars_n[i] : 0), "output used a history that is not the point's committed one");
			for (int n = 0; n < r.nn; n++) if (n == r.nn - 1) { double x = r.l[0], y = r.l[1]; double w = r.dim == 2 ? e[0] * x + e[2] / 2 * y : e[0] * x + e[3] / 2 * y + e[4] / 2 * r.l[2]; NEAR(m->u[n * r.dim], w, 1e-9, "output did not impose the point's strain"); }
			{ micropp_t *k = p.make(); memcpy(k->vars_old, m->vars_old, r.nelem * 56 * sizeof(double)); memcpy(k->u, u0.data(), N * sizeof(double)); bool f; int its; double err; k->set_displ(e); double n0 = k->assembly_rhs(&f); k->newton_raphson(&f, &its, &err);
			  if (err < 1e-5 && its < 30) { memcpy(k->u, m->u, N * sizeof(double)); double n1 = k->assembly_rhs(&f); REQ(n1 <= 1e-4 + 1e-4 * n0, "output shows a state that is not in equilibrium: residual %g, before solving %g", n1, n0); }
			  delete k; }
			std::vector<double> es(r.nelem * nv, 0.0), et(r.nelem * nv, 0.0);
			r.each([&](int ex, int ey, int ez) { for (int gp = 0; gp < r.npe; gp++) { double a[6], s[6], nw[7]; r.strain(m->u, ex, ey, ez, gp, a); r.stress(r.phase(ex, ey, ez), a, r.hist(m->vars_old, ex, ey, ez, gp), nw, s); for (int v = 0; v < nv; v++) { es[r.elem(ex, ey, ez) * nv + v] += s[v] / r.npe; et[r.elem(ex, ey, ez) * nv + v] += a[v] / r.npe; } } });
			double a = amax(et.data(), et.size()), b = amax(es.data(), es.size());
			for (int i = 0; i < r.nelem * nv; i++) { NEAR(m->elem_strain[i], et[i], 1e-7 * a + 1e-14, "element strain shown"); NEAR(m->elem_stress[i], es[i], 1e-7 * b + 1e-9, "element stress shown"); }
		}
		char h[100]; snprintf(h, sizeof h, "NumberOfPoints=\"%d\"", r.nn); REQ(t.find(h) != std::string::npos, "%s not declared", h); snprintf(h, sizeof h, "NumberOfCells=\"%d\"", r.nelem); REQ(t.find(h) != std::string::npos, "%s not declared", h);
		std::vector<double> pos, con, off, typ, dis, res, eps(m->elem_strain, m->elem_strain + r.nelem * nv), sig(m->elem_stress, m->elem_stress + r.nelem * nv), et, pl, ha;
		for (int n = 0; n < r.nn; n++) { pos.push_back(n % r.nx * r.d[0]); pos.push_back(n / r.nx % r.ny * r.d[1]); pos.push_back(r.dim == 2 ? 0 : n / (r.nx * r.ny) * r.d[2]); for (int a = 0; a < 3; a++) { dis.push_back(a < r.dim ? m->u[n * r.dim + a] : 0); res.push_back(a < r.dim ? m->b[n * r.dim + a] : 0); } }
		r.each([&](int ex, int ey, int ez) { for (int q = 0; q < r.npe; q++) con.push_back(r.corner(q, ex, ey, ez)); off.push_back(con.size()); typ.push_back(r.dim == 2 ? 9 : 12); et.push_back(m->elem_type[r.elem(ex, ey, ez)]);
			double a = 0, b = 0; if (r.dim == 3) for (int gp = 0; gp < 8; gp++) { const double *q = r.hist(m->vars_old, ex, ey, ez, gp); double s = 0; for (int i = 0; i < 6; i++) s += (i < 3 ? 1 : 2) * q[i] * q[i]; a += sqrt(s) / 8; b += q[6] / 8; } pl.push_back(a); ha.push_back(b); });
		want(t, "Position", 3, pos); want(t, "connectivity", 1, con); want(t, "offsets", 1, off); want(t, "types", 1, typ); want(t, "displ", 3, dis); want(t, "b", 3, res); want(t, "strain", nv, eps); want(t, "stress", nv, sig); want(t, "elem_type", 1, et); want(t, "plasticity", 1, pl); want(t, "hardening", 1, ha);
		const char *tags[] = {"VTKFile", "UnstructuredGrid", "Piece", "Points", "Cells", "PointData", "CellData"};
		for (auto g : tags) { std::string o = std::string("<") + g, z = std::string("</") + g + ">"; size_t a = t.find(o), b = t.find(z); REQ(a != std::string::npos && b != std::string::npos && a < b, "element %s is not opened and closed", g); }
		delete m;
	}
}
