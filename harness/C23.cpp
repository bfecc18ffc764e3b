#include "common.hpp"
typedef std::vector<double> V;
static double dot(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static V mul(const ell_matrix &m, const V &x) { V y(m.nrow, 0.0); for (int i = 0; i < m.nrow; i++) for (int j = 0; j < m.nnz; j++) y[i] += m.vals[i * m.nnz + j] * x[m.cols[i * m.nnz + j]]; return y; }
static V diag(const ell_matrix &m) { V d(m.nrow, 0.0); for (int i = 0; i < m.nrow; i++) for (int j = 0; j < m.nnz; j++) if (m.cols[i * m.nnz + j] == i) d[i] += m.vals[i * m.nnz + j]; return d; }
static V comb(const V &a, double t, const V &b) { V c = a; for (size_t i = 0; i < a.size(); i++) c[i] += t * b[i]; return c; }
// iterates of the solver from the same guess, one more iteration each time
static void check(int dim, int nF, int nx, int ny, int nz, ell_matrix &m, const V &b, const V &x0, int which, int K) {
	const char *nm[] = {"cgpd_struct", "cgpd_2D"};
	V d = diag(m), xp = x0, sp; double r0 = -1;
	for (int k = 1; k <= K; k++) {
		ell_solver s; s.max_its = k; s.min_tol = 1e-300; V x = x0, bb = b;
		int rc = which == 0 ? ell_solve_cgpd_struct(&s, &m, nF, dim, nx * ny * nz, bb.data(), x.data()) : ell_solve_cgpd_2D(&s, &m, nF, nx, ny, bb.data(), x.data());
		REQ(rc == 0, "%s returned %d", nm[which], rc);
		V ro = comb(b, -1, mul(m, xp)), rn = comb(b, -1, mul(m, x)), st = comb(x, -1, xp), As = mul(m, st);
		double nro = sqrt(dot(ro, ro)); if (r0 < 0) r0 = nro; if (nro <= 1e-6 * r0 || r0 == 0) return;
		double ns = sqrt(dot(st, st)), tol = 1e-7 + 1e-12 * r0 / nro; V z = ro; for (size_t i = 0; i < z.size(); i++) z[i] /= d[i];
		double rz = dot(ro, z), nAs = sqrt(dot(As, As));
		REQ(ns > 0, "%s: iteration %d does not move the solution, residual %g of %g", nm[which], k, nro, r0);
		REQ(fabs(dot(st, rn)) <= tol * ns * nro, "%s: step %d is not the minimiser along its direction: step.residual = %g (|step| %g, |residual| before %g)", nm[which], k, dot(st, rn), ns, nro);
		double t = dot(st, As) / rz;   // step = t * direction, direction.residual = residual.z
		REQ(t > 0 && dot(st, ro) > 0, "%s: step %d does not go downhill: step.residual = %g", nm[which], k, dot(st, ro));
		if (k == 1) { double c = dot(st, z) / dot(z, z); V e = comb(st, -c, z); REQ(sqrt(dot(e, e)) <= tol * ns, "%s: the first step is not along the preconditioned residual (off by %g of %g)", nm[which], sqrt(dot(e, e)), ns); }
		else {
			REQ(fabs(dot(sp, As)) <= tol * sqrt(dot(sp, sp)) * nAs, "%s: steps %d and %d are not conjugate: %g (|step| %g, |A step| %g)", nm[which], k - 1, k, dot(sp, As), sqrt(dot(sp, sp)), nAs);
			// step in the span of the preconditioned residual and the previous step
			double zz = dot(z, z), zs = dot(z, sp), ss = dot(sp, sp), D = zz * ss - zs * zs;
			if (D > 1e-6 * zz * ss) { double a = (dot(st, z) * ss - dot(st, sp) * zs) / D, c = (dot(st, sp) * zz - dot(st, z) * zs) / D; V e = comb(comb(st, -a, z), -c, sp);
				REQ(sqrt(dot(e, e)) <= 1e-6 * ns, "%s: step %d leaves the plane of the preconditioned residual and the previous step by %g of %g", nm[which], k, sqrt(dot(e, e)), ns); }
		}
		double dE = .5 * dot(st, As) - dot(st, ro);   // change of x.Ax/2 - b.x
		REQ(dE < 0, "%s: iteration %d does not lower the energy: change %g", nm[which], k, dE);
		xp = x; sp = st;
	}
}
void run() {
	for (int c = 0; c < nc(40); c++) {
		int dim = c % 2 ? 3 : 2, nF = 1 + c / 2 % 3, nx = ri(2, 5), ny = ri(2, 5), nz = dim == 2 ? 1 : ri(2, 4), which = dim == 3 ? 0 : c / 2 % 2;
		ell_matrix m; if (dim == 2) ell_init_2D(&m, nF, nx, ny); else ell_init_3D(&m, nF, nx, ny, nz);
		int n = m.nrow; V b(n), x(n); for (int i = 0; i < n; i++) { b[i] = rr(-1, 1); x[i] = c % 3 ? rr(-1, 1) : 0; }
		double w = rr(1.1, 3);
		for (int i = 0; i < n; i++) { double row = 0; int ds = -1;
			for (int s = 0; s < m.nnz; s++) {
				int N = i / nF, f = s / nF, I = N % nx + f % 3 - 1, J = N / nx % ny + f / 3 % 3 - 1, K = dim == 2 ? 0 : N / (nx * ny) + f / 9 - 1;
				bool ok = I >= 0 && I < nx && J >= 0 && J < ny && K >= 0 && K < nz; int col = ((K * ny + J) * nx + I) * nF + s % nF; double &v = m.vals[i * m.nnz + s];
				if (!ok) v = 0; else if (col == i) ds = s; else { v = ((i + col) * 7919 % 101) / 101.0 - 0.5; row += fabs(v); } }
			m.vals[i * m.nnz + ds] = (row + .01) * w * (1 + i % 5); }
		desc("cg %d dim=%d nFields=%d %dx%dx%d", which, dim, nF, nx, ny, nz); ncases++;
		check(dim, nF, nx, ny, nz, m, b, x, which, 12);
		ell_free(&m);
	}
	for (int c = 0; c < nc(4); c++) {   // slowly converging: many iterations
		int dim = c % 2 ? 3 : 2, nF = 1, nx = dim == 2 ? ri(12, 20) : ri(5, 7), ny = dim == 2 ? ri(12, 20) : ri(5, 7), nz = dim == 2 ? 1 : ri(5, 7), which = dim == 3 ? 0 : c / 2 % 2;
		ell_matrix m; if (dim == 2) ell_init_2D(&m, nF, nx, ny); else ell_init_3D(&m, nF, nx, ny, nz);
		int n = m.nrow; V b(n), x(n), w(n); for (int i = 0; i < n; i++) { b[i] = rr(-1, 1); x[i] = c % 3 ? rr(-1, 1) : 0; w[i] = pow(10, rr(-2, 2)); }
		for (int i = 0; i < n; i++) { double row = 0; int ds = -1;
			for (int s = 0; s < m.nnz; s++) {
				int I = i % nx + s % 3 - 1, J = i / nx % ny + s / 3 % 3 - 1, K = dim == 2 ? 0 : i / (nx * ny) + s / 9 - 1;
				bool ok = I >= 0 && I < nx && J >= 0 && J < ny && K >= 0 && K < nz; int col = (K * ny + J) * nx + I; double &v = m.vals[i * m.nnz + s];
				if (!ok) v = 0; else if (col == i) ds = s; else { v = -w[i] * w[col] / (w[i] + w[col]); row -= v; } }
			m.vals[i * m.nnz + ds] = row * 1.0001; }
		desc("cg %d slow dim=%d %dx%dx%d", which, dim, nx, ny, nz); ncases++;
		check(dim, nF, nx, ny, nz, m, b, x, which, 150);
		ell_free(&m);
	}
	for (int c = 0; c < nc(8); c++) {   // the cell's own systems
		Par p = rcell(c % 2 ? 3 : 2, 5); Ref r(p); micropp_t *m = p.make(); rdisp(r, m->u); bool nl;
		m->assembly_rhs(&nl); m->assembly_mat(); int n = r.nn * r.dim; V b(m->b, m->b + n), x(n, 0.0);
		// make the fixed columns vanish as well, so that the matrix is symmetric
		double as = 0, an = 0; std::set<int> fx; for (int i = 0; i < n; i++) if (r.bnode(i / r.dim)) fx.insert(i);
		for (int i = 0; i < n; i++) for (int j = 0; j < m->A.nnz; j++) { int k = m->A.cols[i * m->A.nnz + j]; double &v = m->A.vals[i * m->A.nnz + j]; if (k != i && (fx.count(i) || fx.count(k))) v = 0; }
		for (int i = 0; i < n; i++) for (int j = 0; j < m->A.nnz; j++) { int k = m->A.cols[i * m->A.nnz + j]; double v = m->A.vals[i * m->A.nnz + j], t = 0; for (int q = 0; q < m->A.nnz; q++) if (m->A.cols[k * m->A.nnz + q] == i) t += m->A.vals[k * m->A.nnz + q]; double w = 0; for (int q = 0; q < m->A.nnz; q++) if (m->A.cols[i * m->A.nnz + q] == k) w += m->A.vals[i * m->A.nnz + q]; as = std::max(as, fabs(w - t)); an = std::max(an, fabs(v)); }
		for (int i : fx) b[i] = 0;
		if (as <= 1e-10 * an) { ncases++; check(r.dim, r.dim, r.nx, r.ny, r.nz, m->A, b, x, r.dim == 3 ? 0 : 1, 12); }
		delete m;
	}
}
