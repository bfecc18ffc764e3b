#include "common.hpp"
void run() {
	for (int c = 0; c < nc(90); c++) {
		int dim = c % 2 ? 3 : 2, nF = 1 + c / 2 % 3, nx = ri(2, 6), ny = ri(2, 6), nz = dim == 2 ? 1 : ri(2, 5), a, b, g;
		const char *sz = getenv("MVC_SIZES"); if (sz && c < 6 && sscanf(sz, "%d,%d,%d", &a, &b, &g) == 3) { nx = a; ny = b; nz = dim == 2 ? 1 : g; }
		desc("ell matrix dim=%d nFields=%d %dx%dx%d", dim, nF, nx, ny, nz); ncases++;
		ell_matrix m; if (dim == 2) ell_init_2D(&m, nF, nx, ny); else ell_init_3D(&m, nF, nx, ny, nz);
		int nn = nx * ny * nz, ns = dim == 2 ? 9 : 27;
		REQ(m.nrow == nn * nF && m.ncol == nn * nF && m.nnz == ns * nF, "matrix sizes %d %d %d", m.nrow, m.ncol, m.nnz);
		for (int n = 0; n < nn; n++) for (int d = 0; d < nF; d++) for (int s = 0; s < ns; s++) for (int f = 0; f < nF; f++) {
			int i = n % nx + s % 3 - 1, j = n / nx % ny + s / 3 % 3 - 1, k = dim == 2 ? 0 : n / (nx * ny) + s / 9 - 1;
			bool ok = i >= 0 && i < nx && j >= 0 && j < ny && k >= 0 && k < nz;
			int got = m.cols[(n * nF + d) * m.nnz + s * nF + f], w = ok ? ((k * ny + j) * nx + i) * nF + f : 0;
			REQ(got == w, "column of row node (%d,%d,%d) unknown %d, slot %d unknown %d: got %d, expected %d", n % nx, n / nx % ny, n / nx / ny, d, s, f, got, w);
		}
		std::vector<double> v(m.nrow * m.nnz), x(m.nrow), y(m.nrow), x0;
		for (auto &t : v) t = rr(-1, 1); for (auto &t : x) t = rr(-1, 1); for (auto &t : y) t = rr(-9, 9); x0 = x;
		std::vector<int> c0(m.cols, m.cols + m.nrow * m.nnz);
		memcpy(m.vals, v.data(), v.size() * 8);
		int q[3] = {m.nrow, m.ncol, m.nnz};
		ell_mvp_2D(&m, x.data(), y.data());
		for (int i = 0; i < m.nrow; i++) { double s = 0; for (int j = 0; j < m.nnz; j++) s += v[i * m.nnz + j] * x0[c0[i * m.nnz + j]]; NEAR(y[i], s, 1e-10, "product row %d", i); }
		REQ(x == x0 && !memcmp(m.vals, v.data(), v.size() * 8) && !memcmp(m.cols, c0.data(), c0.size() * 4) && q[0] == m.nrow && q[1] == m.ncol && q[2] == m.nnz, "the product changed an input");
		ell_free(&m);
	}
}
