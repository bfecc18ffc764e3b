#include "common.hpp"
void run() {
	for (int c = 0; c < nc(60); c++) {
		int dim = c % 2 ? 3 : 2, nF = 1 + c / 2 % 3, nx = ri(2, 5), ny = ri(2, 5), nz = dim == 2 ? 1 : ri(2, 4), a, b, g;
		const char *sz = getenv("MVC_SIZES"); if (sz && c < 6 && sscanf(sz, "%d,%d,%d", &a, &b, &g) == 3) { nx = a; ny = b; nz = dim == 2 ? 1 : g; }
		desc("ell matrix dim=%d nFields=%d %dx%dx%d", dim, nF, nx, ny, nz); ncases++;
		ell_matrix m; if (dim == 2) ell_init_2D(&m, nF, nx, ny); else ell_init_3D(&m, nF, nx, ny, nz);
		int nn = nx * ny * nz, npe = dim == 2 ? 4 : 8, n = npe * nF;
		std::vector<double> v(m.nrow * m.nnz); for (auto &t : v) t = rr(-1, 1); memcpy(m.vals, v.data(), v.size() * 8);
		std::vector<int> c0(m.cols, m.cols + m.nrow * m.nnz);
		for (int t = 0; t < 6; t++) {
			int ex = ri(0, nx - 2), ey = ri(0, ny - 2), ez = dim == 2 ? 0 : ri(0, nz - 2);
			if (t == 1) { ex = nx - 2; ey = ny - 2; ez = dim == 2 ? 0 : nz - 2; } if (t == 2) ex = ey = ez = 0;
			std::vector<double> A(n * n), A0; for (auto &q : A) q = rr(-1, 1); A0 = A;
			if (dim == 2) ell_add_struct2D(&m, ex, ey, A.data(), nF, nx, ny); else ell_add_struct3D(&m, ex, ey, ez, A.data(), nF, nx, ny, nz);
			REQ(A == A0, "element matrix changed");
			for (int r = 0; r < n; r++) for (int q = 0; q < n; q++) {
				int R = r / nF, Q = q / nF, o[3];
				for (int s = 0; s < 3; s++) o[s] = (Ref::sgn(Q, s) - Ref::sgn(R, s)) / 2 + 1;
				int slot = dim == 2 ? o[1] * 3 + o[0] : o[2] * 9 + o[1] * 3 + o[0];
				int nd = ((ez + (dim == 3 && Ref::sgn(R, 2) > 0)) * ny + ey + (Ref::sgn(R, 1) > 0)) * nx + ex + (Ref::sgn(R, 0) > 0);
				v[(nd * nF + r % nF) * m.nnz + slot * nF + q % nF] += A0[r * n + q];
			}
			for (size_t i = 0; i < v.size(); i++) NEAR(m.vals[i], v[i], 1e-11, "adding element (%d,%d,%d): coefficient of row %d (node %d), slot %d", ex, ey, ez, (int)i / m.nnz, (int)i / m.nnz / nF, (int)i % m.nnz);
			REQ(!memcmp(m.cols, c0.data(), c0.size() * 4), "columns changed");
		}
		REQ(m.nrow == nn * nF, "rows changed");
		ell_set_zero_mat(&m);
		for (size_t i = 0; i < v.size(); i++) REQ(m.vals[i] == 0, "coefficient %d not zeroed", (int)i);
		ell_free(&m);
	}
	for (int c = 0; c < nc(24); c++) {
		Par p = rcell(c % 2 ? 3 : 2, 5); Ref r(p); micropp_t *m = p.make();
		rdisp(r, m->u); if (c % 3) rhist(r, m->vars_old);
		int d = r.dim, N = r.nn * d, n = r.npe * d;
		for (int i = 0; i < m->A.nrow * m->A.nnz; i++) m->A.vals[i] = rr(-1e9, 1e9);
		// expected sums built from the library's own element matrices
		std::vector<double> K((size_t)N * N, 0.0); double sc = 0;
		r.each([&](int ex, int ey, int ez) {
			double A2[64], A3[576], *A = d == 2 ? A2 : A3;
			if (d == 2) m->get_elem_mat2D(ex, ey, A2); else m->get_elem_mat3D(ex, ey, ez, A3);
			for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
				int I = r.corner(i / d, ex, ey, ez), J = r.corner(j / d, ex, ey, ez);
				K[(size_t)(I * d + i % d) * N + J * d + j % d] += A[i * n + j]; sc = std::max(sc, fabs(A[i * n + j]));
			}
		});
		m->assembly_mat();
		for (int I = 0; I < r.nn; I++) if (!r.bnode(I)) for (int a = 0; a < d; a++) {
			std::vector<double> row(N, 0.0);
			for (int s = 0; s < m->A.nnz; s++) { int f = s / d; int i = I % r.nx + f % 3 - 1, j = I / r.nx % r.ny + f / 3 % 3 - 1, k = d == 2 ? 0 : I / (r.nx * r.ny) + f / 9 - 1; row[r.node(i, j, k) * d + s % d] += m->A.vals[(I * d + a) * m->A.nnz + s]; }
			for (int J = 0; J < r.nn; J++) if (!r.bnode(J)) for (int q = 0; q < d; q++) NEAR(row[J * d + q], K[(size_t)(I * d + a) * N + J * d + q], 1e-9 * sc, "assembled coefficient of nodes %d,%d unknowns %d,%d", I, J, a, q);
		}
		delete m;
	}
}
