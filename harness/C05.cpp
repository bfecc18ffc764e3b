#include "common.hpp"
static void trial(const Ref &r, const double *u, const double *o, const double *before, const double *after, const char *what, bool dont_care_plastic) {
	r.each([&](int ex, int ey, int ez) {
		int ph = r.phase(ex, ey, ez);
		for (int gp = 0; gp < 8; gp++) {
			double e[6], w[7], s[6]; const double *a = r.hist(after, ex, ey, ez, gp), *b = r.hist(before, ex, ey, ez, gp), *h = r.hist(o, ex, ey, ez, gp);
			if (r.plastic(ph) && gp < r.npe) {
				if (dont_care_plastic) continue;
				r.strain(u, ex, ey, ez, gp, e); r.j2(ph, e, h, w, s);
				for (int i = 0; i < 7; i++) NEAR(a[i], w[i], 1e-8 * (amax(e, 6) + amax(h, 7)) + 1e-14, "%s: trial history %d of element (%d,%d,%d) point %d is not that of its own strain and history", what, i, ex, ey, ez, gp);
			} else
				for (int i = 0; i < 7; i++) REQ(a[i] == b[i], "%s: trial history %d of element (%d,%d,%d) point %d changed", what, i, ex, ey, ez, gp);
		}
	});
}
void run() {
	for (int c = 0; c < nc(40); c++) {
		Par p = rcell(c % 4 == 0 ? 2 : 3, 4); Ref r(p); micropp_t *m = p.make(); int nv = r.nelem * 56;
		double s[6]; bool nl; int its; double err;
		auto ready = [&]() { rhist(r, m->vars_old); rhist(r, m->vars_new); rdisp(r, m->u); };
		std::vector<double> o, n;
		auto keep = [&]() { o = snap(m->vars_old, nv); n = snap(m->vars_new, nv); };
		auto chk = [&](const char *w, bool dc = false) {
			REQ(same(o, m->vars_old), "%s changed the committed history", w);
			trial(r, m->u, o.data(), n.data(), m->vars_new, w, dc);
		};
		ready(); keep(); m->assembly_rhs(&nl); chk("residual assembly");
		ready(); keep(); m->calc_ave_stress(s); chk("average stress");
		ready(); keep(); m->calc_fields(); chk("element fields");
		ready(); keep(); m->calc_ave_strain(s); REQ(same(o, m->vars_old) && same(n, m->vars_new), "average strain changed a history");
		ready(); keep(); m->assembly_mat(); chk("stiffness assembly", true);
		// single element / single point
		ready(); keep();
		int ex = ri(0, r.nx - 2), ey = ri(0, r.ny - 2), ez = r.dim == 2 ? 0 : ri(0, r.nz - 2), gp = ri(0, r.npe - 1);
		double e[6]; reps(r, e);
		if (r.dim == 2) m->get_stress2D(ex, ey, gp, e, &nl, s); else m->get_stress3D(ex, ey, ez, gp, e, &nl, s);
		REQ(same(o, m->vars_old), "stress evaluation changed the committed history");
		for (int q = 0; q < r.nelem * 8; q++) for (int i = 0; i < 7; i++) {
			bool own = q == r.elem(ex, ey, ez) * 8 + gp && r.plastic(r.phase(ex, ey, ez));
			if (!own) REQ(m->vars_new[q * 7 + i] == n[q * 7 + i], "stress at element (%d,%d,%d) point %d changed the trial history of point %d of element %d", ex, ey, ez, gp, q % 8, q / 8);
			else { double w[7], t[6]; r.j2(r.phase(ex, ey, ez), e, &o[q * 7], w, t); NEAR(m->vars_new[q * 7 + i], w[i], 1e-8 * (amax(e, 6) + amax(&o[q * 7], 7)) + 1e-14, "trial history %d of element (%d,%d,%d) point %d", i, ex, ey, ez, gp); }
		}
		ready(); keep();
		if (r.dim == 2) { double be[8], Ae[64]; m->get_elem_rhs2D(ex, ey, &nl, be); m->get_elem_mat2D(ex, ey, Ae); }
		else { double be[24], Ae[576]; m->get_elem_rhs3D(ex, ey, ez, &nl, be); m->get_elem_mat3D(ex, ey, ez, Ae); }
		REQ(same(o, m->vars_old), "element evaluation changed the committed history");
		for (int i = 0; i < nv; i++) if (i / 56 != r.elem(ex, ey, ez)) REQ(m->vars_new[i] == n[i], "element (%d,%d,%d) changed the trial history of element %d", ex, ey, ez, i / 56);
		if (c < nc(14)) {
			ready(); keep(); reps(r, e); m->set_displ(e); m->newton_raphson(&nl, &its, &err);
			REQ(same(o, m->vars_old), "equilibrium solve changed the committed history");
			keep(); m->calc_ave_stress(s); chk("average stress after solve");
		}
		delete m;
	}
}
