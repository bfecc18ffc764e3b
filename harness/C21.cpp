#include "common.hpp"
extern "C" {
void micropp_construct_(int *, int *, int *, double *, int *, double *); void micropp_output_(int *, int *); void micropp_get_non_linear_flag_(int *, int *); void micropp_set_macro_strain_(int *, double *);
void micropp_homogenize_(void); void micropp_get_macro_stress_(int *, double *); void micropp_get_macro_ctan_(int *, double *); void micropp_update_internal_variables_(void); void micropp_write_convergence_file_(void);
}
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static const char *files[] = {"micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat", "micropp_materials.dat"};
static std::string all() { std::string s; for (auto f : files) s += slurp(f) + "\n@@\n"; return s; }
void run() {
	for (int c = 0; c < nc(16); c++) {
		Par p = rcell(c % 2 ? 3 : 2, 3), p0 = p; p.mp[4] = ri(0, 1) ? 0 : 1e4; p.str(); p0 = p; Ref r(p);
		// the same random call sequence through either interface
		std::vector<std::vector<double>> ops; int n = ri(8, 16);
		for (int i = 0; i < n; i++) { std::vector<double> o; o.push_back(i < 2 ? 0 : ri(0, 7)); o.push_back(ri(1, 3)); double e[6]; reps(r, e); for (double x : e) o.push_back(x); o.push_back(ri(0, 5)); ops.push_back(o); }
		std::vector<double> res[2]; std::string fl[2];
		for (int side = 0; side < 2; side++) {
			micropp_t *m = NULL;
			if (side == 0) m = p.make();
			else { Par q = rpar(p.dim, 3); if (ri(0, 1)) micropp_construct_(&q.dim, q.size, &q.type, q.mp, q.mt, q.pr); micropp_construct_(&p.dim, p.size, &p.type, p.mp, p.mt, p.pr); REQ(!memcmp(&p, &p0, sizeof p), "construct changed its arguments"); }
			std::vector<double> &v = res[side];
			for (auto o : ops) {
				int id = o[1], ts = o[8], k = o[0], id0 = id; double e[6], s[36]; for (int i = 0; i < 6; i++) e[i] = o[2 + i]; for (auto &x : s) x = 5;
				if (k == 0) { if (side) micropp_set_macro_strain_(&id, e); else m->set_macro_strain(id, e); }
				if (k == 1) { if (side) micropp_homogenize_(); else m->homogenize(); }
				if (k == 2) { if (side) micropp_get_macro_stress_(&id, s); else m->get_macro_stress(id, s); }
				if (k == 3) { if (side) micropp_get_macro_ctan_(&id, s); else m->get_macro_ctan(id, s); }
				if (k == 4) { int f = -4; if (side) micropp_get_non_linear_flag_(&id, &f); else m->get_nl_flag(id, &f); s[0] = f; }
				if (k == 5) { if (side) micropp_update_internal_variables_(); else m->update_vars(); }
				if (k == 6) { if (side) micropp_write_convergence_file_(); else m->write_info_files(); }
				if (k == 7) { if (side) micropp_output_(&ts, &id); else m->output(ts, id); char f[100]; for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) { snprintf(f, sizeof f, "micropp_%d_%d.vtu", a, b); std::string t = slurp(f); if (!t.empty()) { fl[side] += std::string(f) + t; remove(f); } } }
				REQ(id == id0, "an id was changed by the call"); for (double x : e) v.push_back(x); for (double x : s) v.push_back(x);
			}
			fl[side] += all(); if (m) delete m;
		}
		for (size_t i = 0; i < res[0].size(); i++) REQ(res[0][i] == res[1][i], "call %zu (operation %g, id %g): value %zu is %.17g through the C++ interface and %.17g through the Fortran one", i / 42, ops[i / 42][0], ops[i / 42][1], i % 42, res[0][i], res[1][i]);
		REQ(fl[0] == fl[1], "the files written differ");
	}
}
