#include "common.hpp"
void run() {
	for (int c = 0; c < nc(120); c++) {
		Par p = rcell(c % 2 ? 3 : 2, 6); Ref r(p); micropp_t *m = p.make();
		bool affine = c % 4 >= 2; double G[3][3], e0[6];
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) G[i][j] = rr(-1, 1);
		rdisp(r, m->u);
		if (affine)
			for (int n = 0; n < r.nn; n++) {
				double x[3] = {n % r.nx * r.d[0], n / r.nx % r.ny * r.d[1], r.dim == 2 ? 0 : n / (r.nx * r.ny) * r.d[2]};
				for (int a = 0; a < r.dim; a++) { m->u[n * r.dim + a] = 0.3 * a; for (int b = 0; b < r.dim; b++) m->u[n * r.dim + a] += G[a][b] * x[b]; }
			}
		double sc = amax(m->u, r.nn * r.dim) / std::min(r.d[0], std::min(r.d[1], r.d[2]));
		std::vector<double> u0 = snap(m->u, r.nn * r.dim);
		r.each([&](int ex, int ey, int ez) {
			for (int gp = 0; gp < r.npe; gp++) {
				double e[6] = {7, 7, 7, 7, 7, 7}, w[6];
				if (r.dim == 2) m->get_strain2D(ex, ey, gp, e); else m->get_strain3D(ex, ey, ez, gp, e);
				r.strain(u0.data(), ex, ey, ez, gp, w);
				for (int v = 0; v < r.nvoi; v++)
					NEAR(e[v], w[v], 1e-9 * sc, "strain component %d at element (%d,%d,%d) point %d", v, ex, ey, ez, gp);
				if (affine) {
					if (r.dim == 2) { e0[0] = G[0][0]; e0[1] = G[1][1]; e0[2] = G[0][1] + G[1][0]; }
					else { for (int i = 0; i < 3; i++) e0[i] = G[i][i]; e0[3] = G[0][1] + G[1][0]; e0[4] = G[0][2] + G[2][0]; e0[5] = G[1][2] + G[2][1]; }
					for (int v = 0; v < r.nvoi; v++)
						NEAR(e[v], e0[v], 1e-9 * sc, "affine field: strain component %d at element (%d,%d,%d) point %d", v, ex, ey, ez, gp);
				}
			}
		});
		REQ(same(u0, m->u), "strain evaluation changed displacements");
		delete m;
	}
}
