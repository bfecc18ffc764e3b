#include "common.hpp"
typedef std::vector<double> V;
static void check(int dim, int nF, int nx, int ny, int nz, ell_matrix &m, V b, V x, int which, int max_its, double tol, const std::set<int> &fixed, double ill) {
	V v(m.vals, m.vals + m.nrow * m.nnz), b0 = b, x0 = x; std::vector<int> c(m.cols, m.cols + m.nrow * m.nnz);
	ell_solver s; s.max_its = max_its; s.min_tol = tol; s.its = -7; s.err = -7;
	int q[3] = {m.nrow, m.ncol, m.nnz}, rc;
	if (which == 0) rc = ell_solve_cgpd_struct(&s, &m, nF, dim, nx * ny * nz, b.data(), x.data());
	else if (which == 1) rc = ell_solve_cgpd_2D(&s, &m, nF, nx, ny, b.data(), x.data());
	else rc = ell_solve_jacobi_2D(&s, &m, nF, nx, ny, b.data(), x.data());
	const char *nm[] = {"cgpd_struct", "cgpd_2D", "jacobi_2D"};
	REQ(rc == 0, "%s returned %d", nm[which], rc);
	REQ(b == b0 && !memcmp(m.vals, v.data(), v.size() * 8) && !memcmp(m.cols, c.data(), c.size() * 4) && q[0] == m.nrow && q[1] == m.ncol && q[2] == m.nnz, "%s changed the matrix or the right-hand side", nm[which]);
	REQ(s.max_its == max_its && s.min_tol == tol, "%s changed the solver limits", nm[which]);
	REQ(s.its >= 0 && s.its <= max_its, "%s reports %d iterations, limit %d", nm[which], s.its, max_its);
	double r = 0, bn = 0;
	for (int i = 0; i < m.nrow; i++) { double t = -b0[i]; for (int j = 0; j < m.nnz; j++) t += v[i * m.nnz + j] * x[c[i * m.nnz + j]]; r += t * t; bn += b0[i] * b0[i]; double t0 = -b0[i]; for (int j = 0; j < m.nnz; j++) t0 += v[i * m.nnz + j] * x0[c[i * m.nnz + j]]; bn += t0 * t0; }
	r = sqrt(r); bn = sqrt(bn);
	if (s.its < max_its) {
		REQ(s.err < tol, "%s stopped after %d of %d iterations with reported error %g, tolerance %g", nm[which], s.its, max_its, s.err, tol);
		NEAR(r, s.err, ill * bn + 1e-13, "%s: true residual norm against reported error after %d iterations", nm[which], s.its);
	}
	for (int i : fixed) REQ(x[i] == 0, "%s: unknown %d with identity row, zero right-hand side and zero guess became %g", nm[which], i, x[i]);
}
void run() {
	for (int c = 0; c < nc(80); c++) {
		int dim = c % 2 ? 3 : 2, nF = 1 + c / 2 % 3, nx = ri(2, 5), ny = ri(2, 5), nz = dim == 2 ? 1 : ri(2, 4);
		int which = dim == 3 ? 0 : c / 2 % 3;
		ell_matrix m; if (dim == 2) ell_init_2D(&m, nF, nx, ny); else ell_init_3D(&m, nF, nx, ny, nz);
		int n = m.nrow, ns = dim == 2 ? 9 : 27; std::set<int> fixed; V b(n), x(n);
		std::set<int> fx; for (int i = 0; i < n; i++) { b[i] = rr(-1, 1); x[i] = ri(0, 2) ? rr(-1, 1) : 0; if (c % 4 >= 2 && ri(0, 3) == 0) fx.insert(i); }
		for (int i = 0; i < n; i++) for (int s = 0; s < m.nnz; s++) {
			int N = i / nF, f = s / nF, I = N % nx + f % 3 - 1, J = N / nx % ny + f / 3 % 3 - 1, K = dim == 2 ? 0 : N / (nx * ny) + f / 9 - 1;
			bool ok = I >= 0 && I < nx && J >= 0 && J < ny && K >= 0 && K < nz; int col = ((K * ny + J) * nx + I) * nF + s % nF; double &v = m.vals[i * m.nnz + s];
			if (!ok) v = 0; else if (col == i) v = fx.count(i) ? 1 : 2.0 * m.nnz * (1 + i % 5); else if (fx.count(i) || fx.count(col)) v = 0; else v = ((i + col) * 7919 % 101) / 101.0 - 0.5;
		}
		for (int i : fx) { b[i] = 0; x[i] = 0; } fixed = fx;
		if (fx.empty() && c % 8 == 1) { for (auto &t : b) t = 0; for (auto &t : x) t = 0; }   // already solved
		int mi = c % 3 == 0 ? ri(1, 3) : 500; double tol = pow(10, -ri(2, 9));
		desc("solve %d dim=%d nFields=%d %dx%dx%d max_its=%d tol=%g fixed=%zu", which, dim, nF, nx, ny, nz, mi, tol, fx.size()); ncases++;
		check(dim, nF, nx, ny, nz, m, b, x, which, mi, tol, fixed, 1e-9);
		// null arguments
		ell_solver s; s.max_its = 5; s.min_tol = 1; s.its = -3; s.err = -3; V k = x, bb = b; V vv(m.vals, m.vals + n * m.nnz);
		auto call = [&](ell_matrix *mm, double *B, double *X) { if (which == 0) return ell_solve_cgpd_struct(&s, mm, nF, dim, nx * ny * nz, B, X); if (which == 1) return ell_solve_cgpd_2D(&s, mm, nF, nx, ny, B, X); return ell_solve_jacobi_2D(&s, mm, nF, nx, ny, B, X); };
		REQ(call(NULL, b.data(), x.data()) != 0, "null matrix accepted");
		REQ(call(&m, NULL, x.data()) != 0, "null right-hand side accepted");
		REQ(call(&m, b.data(), NULL) != 0, "null solution accepted");
		REQ(k == x && bb == b && s.its == -3 && s.err == -3 && s.max_its == 5 && s.min_tol == 1 && !memcmp(vv.data(), m.vals, vv.size() * 8), "a rejected call had an effect");
		ell_free(&m);
	}
	for (int c = 0; c < nc(6); c++) {   // slowly converging: many iterations
		int dim = c % 2 ? 3 : 2, nF = 1, nx = dim == 2 ? ri(12, 20) : ri(5, 7), ny = dim == 2 ? ri(12, 20) : ri(5, 7), nz = dim == 2 ? 1 : ri(5, 7), which = dim == 3 ? 0 : c / 2 % 3;
		ell_matrix m; if (dim == 2) ell_init_2D(&m, nF, nx, ny); else ell_init_3D(&m, nF, nx, ny, nz);
		int n = m.nrow; V b(n), x(n), w(n); for (int i = 0; i < n; i++) { b[i] = rr(-1, 1); x[i] = c % 3 ? rr(-1, 1) : 0; w[i] = pow(10, rr(-2, 2)); }
		for (int i = 0; i < n; i++) { double row = 0; int ds = -1;
			for (int s = 0; s < m.nnz; s++) {
				int I = i % nx + s % 3 - 1, J = i / nx % ny + s / 3 % 3 - 1, K = dim == 2 ? 0 : i / (nx * ny) + s / 9 - 1;
				bool ok = I >= 0 && I < nx && J >= 0 && J < ny && K >= 0 && K < nz; int col = (K * ny + J) * nx + I; double &v = m.vals[i * m.nnz + s];
				if (!ok) v = 0; else if (col == i) ds = s; else { v = -w[i] * w[col] / (w[i] + w[col]); row -= v; } }
			m.vals[i * m.nnz + ds] = row * 1.02; }
		int mi = c % 4 == 3 ? ri(20, 60) : 5000; double tol = pow(10, -ri(3, 9));
		desc("solve %d slow dim=%d %dx%dx%d max_its=%d tol=%g", which, dim, nx, ny, nz, mi, tol); ncases++;
		check(dim, nF, nx, ny, nz, m, b, x, which, mi, tol, std::set<int>(), 1e-7);
		ell_free(&m);
	}
	for (int c = 0; c < nc(14); c++) {   // the cell's own systems
		Par p = rcell(c % 2 ? 3 : 2, 5); Ref r(p); micropp_t *m = p.make(); rdisp(r, m->u); bool nl;
		m->assembly_rhs(&nl); m->assembly_mat(); int n = r.nn * r.dim; V b(m->b, m->b + n); std::set<int> fx;
		for (int i = 0; i < n; i++) { m->du[i] = 0; if (r.bnode(i / r.dim)) fx.insert(i); }
		V v(m->A.vals, m->A.vals + n * m->A.nnz);
		check(r.dim, r.dim, r.nx, r.ny, r.nz, m->A, b, V(n, 0.0), r.dim == 3 ? 0 : 1, 2000, 1e-8, fx, 1e-6);
		m->solve();
		for (int i : fx) REQ(m->du[i] == 0, "solve moved fixed unknown %d by %g", i, m->du[i]);
		double q = 0, bn = 0; for (int i = 0; i < n; i++) { double t = -b[i]; for (int j = 0; j < m->A.nnz; j++) t += v[i * m->A.nnz + j] * m->du[m->A.cols[i * m->A.nnz + j]]; q += t * t; bn += b[i] * b[i]; }
		REQ(sqrt(q) <= 1e-6 * sqrt(bn) + 2e-8, "solve left residual %g of %g", sqrt(q), sqrt(bn));
		REQ(!memcmp(b.data(), m->b, n * 8) && !memcmp(v.data(), m->A.vals, v.size() * 8), "solve changed the matrix or the right-hand side");
		delete m;
	}
}
