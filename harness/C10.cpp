#include "common.hpp"
void run() {
	for (int c = 0; c < nc(90); c++) {
		int dim = c % 2 ? 3 : 2, nF = 1 + c / 2 % 3, nx = ri(2, 6), ny = ri(2, 6), nz = dim == 2 ? 1 : ri(2, 5), a, b, g;
		if (c % 5 == 0) { nx = ri(2, 3); ny = ri(2, 4); if (dim == 3) nz = ri(2, 4); }
		const char *sz = getenv("MVC_SIZES"); if (sz && c < 6 && sscanf(sz, "%d,%d,%d", &a, &b, &g) == 3) { nx = a; ny = b; nz = dim == 2 ? 1 : g; }
		desc("ell matrix dim=%d nFields=%d %dx%dx%d", dim, nF, nx, ny, nz); ncases++;
		ell_matrix m; if (dim == 2) ell_init_2D(&m, nF, nx, ny); else ell_init_3D(&m, nF, nx, ny, nz);
		int nn = nx * ny * nz, ns = dim == 2 ? 9 : 27;
		std::vector<double> v(m.nrow * m.nnz); for (auto &t : v) t = rr(1, 2); memcpy(m.vals, v.data(), v.size() * 8);
		std::vector<int> c0(m.cols, m.cols + m.nrow * m.nnz);
		if (dim == 2) ell_set_bc_2D(&m, nF, nx, ny); else ell_set_bc_3D(&m, nF, nx, ny, nz);
		auto bd = [&](int i, int j, int k) { return i == 0 || j == 0 || i == nx - 1 || j == ny - 1 || (dim == 3 && (k == 0 || k == nz - 1)); };
		for (int n = 0; n < nn; n++) for (int d = 0; d < nF; d++) for (int s = 0; s < ns; s++) for (int f = 0; f < nF; f++) {
			int i = n % nx, j = n / nx % ny, k = n / (nx * ny), I = i + s % 3 - 1, J = j + s / 3 % 3 - 1, K = dim == 2 ? 0 : k + s / 9 - 1;
			size_t at = (size_t)(n * nF + d) * m.nnz + s * nF + f; double w;
			if (bd(i, j, k)) w = s == ns / 2 && d == f; else w = bd(I, J, K) ? 0 : v[at];
			REQ(m.vals[at] == w, "row node (%d,%d,%d) unknown %d, coefficient of neighbour slot %d unknown %d: got %g, expected %g", i, j, k, d, s, f, m.vals[at], w);
		}
		REQ(!memcmp(m.cols, c0.data(), c0.size() * 4), "columns changed");
		ell_free(&m);
	}
	for (int c = 0; c < nc(10); c++) {   // the assembled matrix
		Par p = rcell(c % 2 ? 3 : 2, 5); Ref r(p); micropp_t *m = p.make(); rdisp(r, m->u); int d = r.dim, ns = d == 2 ? 9 : 27;
		m->assembly_mat();
		for (int n = 0; n < r.nn; n++) for (int a = 0; a < d; a++) for (int s = 0; s < ns; s++) for (int f = 0; f < d; f++) {
			double g = m->A.vals[(size_t)(n * d + a) * m->A.nnz + s * d + f];
			if (r.bnode(n)) REQ(g == (s == ns / 2 && a == f), "assembled matrix: boundary node %d is not an identity row (slot %d: %g)", n, s, g);
			else if (r.boundary(n % r.nx + s % 3 - 1, n / r.nx % r.ny + s / 3 % 3 - 1, d == 2 ? 0 : n / r.nx / r.ny + s / 9 - 1)) REQ(g == 0, "assembled matrix: interior node %d couples to a boundary node in slot %d: %g", n, s, g);
		}
		delete m;
	}
}
