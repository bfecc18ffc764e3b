#include "common.hpp"
static void one(const Par &p) {
	Ref r(p); micropp_t *m = p.make();
	r.each([&](int ex, int ey, int ez) {
		int w = r.phase(ex, ey, ez), e = r.elem(ex, ey, ez);
		int g = r.dim == 2 ? m->get_elem_type2D(ex, ey) : m->get_elem_type3D(ex, ey, ez);
		REQ(g == w && m->elem_type[e] == w, "phase of element (%d,%d,%d): computed %d, stored %d, expected %d", ex, ey, ez, g, m->elem_type[e], w);
		material_t t; memset(&t, 0x5a, sizeof t); t.damage = false; t.plasticity = !(p.mt[w] == 1); m->get_material(e, t);
		double E = p.pr[w * 10], nu = p.pr[w * 10 + 1];
		REQ(t.E == E && t.nu == nu && t.Sy == p.pr[w * 10 + 2] && t.Ka == p.pr[w * 10 + 3] && t.plasticity == (p.mt[w] == 1), "constants of element (%d,%d,%d) are not those given for material %d", ex, ey, ez, w);
		NEAR(t.lambda, r.lam(w), 1e-9 * E, "lambda"); NEAR(t.mu, r.mu(w), 1e-9 * E, "mu"); NEAR(t.k, E / (3 * (1 - 2 * nu)), 1e-8 * E, "bulk modulus");
		// the constants are the ones used
		double x[6], s[6], k[6]; reps(r, x); memcpy(k, x, sizeof x); bool nl; if (r.plastic(w)) for (int i = 0; i < 6; i++) x[i] = k[i] = k[i] * 1e-9;
		if (r.dim == 2) m->get_stress2D(ex, ey, 0, x, &nl, s); else m->get_stress3D(ex, ey, ez, 0, x, &nl, s);
		double q[6]; r.hooke(w, k, q); for (int v = 0; v < r.nvoi; v++) NEAR(s[v], q[v], 1e-8 * E * amax(k, 6), "stress %d of element (%d,%d,%d)", v, ex, ey, ez);
	});
	delete m;
}
void run() {
	for (int c = 0; c < nc(60); c++) { Par p = rcell(c % 2 ? 3 : 2, 5); if (c % 5 == 0) { p.size[0] = ri(2, 8); p.size[1] = ri(2, 8); if (p.dim == 3) p.size[2] = ri(2, 4); if (!sharp(p)) continue; p.str(); } one(p); }
	for (int c = 0; c < nc(30); c++) {   // centres exactly on the interface (exact in binary)
		Par p = rpar(c % 2 ? 3 : 2); for (int i = 0; i < 3; i++) { p.size[i] = 2 * ri(1, 2) + 2; p.mp[i] = p.size[i] - 1; }
		if (p.type == 1) p.mp[3] = ri(0, 3) + 0.5; else p.mp[3] = ri(1, 2);
		p.str(); ncases++; one(p);
	}
}
