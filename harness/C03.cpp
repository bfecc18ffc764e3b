#include "common.hpp"
void run() {
	for (int c = 0; c < nc(100); c++) {
		Par p = rcell(c % 2 ? 3 : 2, 4);
		if (c % 3 == 0) { p.mt[0] = 0; p.mt[1] = 1; } else if (c % 3 == 1) { p.mt[0] = 1; p.mt[1] = 2; }
		p.str(); Ref r(p); micropp_t *m = p.make(); int nv = r.nelem * 56;
		rhist(r, m->vars_old); rhist(r, m->vars_new);
		std::vector<double> o = snap(m->vars_old, nv), n = snap(m->vars_new, nv);
		r.each([&](int ex, int ey, int ez) {
			int ph = r.phase(ex, ey, ez);
			if (r.plastic(ph)) return;
			for (int gp = 0; gp < r.npe; gp++) {
				double e[6], s[6] = {9, 9, 9, 9, 9, 9}, w[6], k[6]; reps(r, e); memcpy(k, e, sizeof e); bool nl = true;
				if (r.dim == 2) m->get_stress2D(ex, ey, gp, e, &nl, s); else m->get_stress3D(ex, ey, ez, gp, e, &nl, s);
				r.hooke(ph, k, w);
				REQ(!nl, "elastic point of element (%d,%d,%d) flagged nonlinear", ex, ey, ez);
				REQ(!memcmp(e, k, sizeof(double) * r.nvoi), "strain argument changed");
				for (int v = 0; v < r.nvoi; v++)
					NEAR(s[v], w[v], 1e-9 * r.E(ph) * 10 * amax(k, 6), "stress component %d at element (%d,%d,%d) point %d, material %d", v, ex, ey, ez, gp, ph);
				REQ(same(o, m->vars_old) && same(n, m->vars_new), "an elastic point changed a history variable");
				for (int i = 0; i < nv; i++) { m->vars_old[i] += 0.3; m->vars_new[i] -= 0.7; }
				double s2[6]; nl = true;
				if (r.dim == 2) m->get_stress2D(ex, ey, gp, e, &nl, s2); else m->get_stress3D(ex, ey, ez, gp, e, &nl, s2);
				for (int v = 0; v < r.nvoi; v++) REQ(s[v] == s2[v], "stress of an elastic point depends on history variables");
				memcpy(m->vars_old, o.data(), nv * 8); memcpy(m->vars_new, n.data(), nv * 8);
			}
		});
		delete m;
	}
}
