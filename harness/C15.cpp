#include "common.hpp"
void run() {
	for (int c = 0; c < nc(14); c++) {
		bool lng = c % 7 == 4;   // a long history of a small cell
		Par p = rcell(c % 6 == 5 ? 2 : 3, lng ? 2 : 3); p.mt[0] = 1; if (ri(0, 1)) p.mt[1] = 1; p.mp[4] = c % 3 == 2 ? p.pr[0] * 1e-4 : 0; p.str();
		Ref r(p); micropp_t *m = p.make(); int nv = r.nelem * 56, G = ri(1, 3);
		std::vector<std::vector<double>> com(G, std::vector<double>(nv, 0.0)), tri(G); std::vector<int> yl(G, 0);
		micropp_t *q = p.make();
		bool bad = false;
		for (int step = 0; step < (lng ? 60 : 5) && !bad; step++) {
			int rep = ri(1, 2);
			for (int k = 0; k < rep && !bad; k++) {
				for (int g = 0; g < G; g++) {
					double e[6] = {0}, sc = (step + g) % 3 == 2 ? 1e-5 : pow(10, rr(-3.5, -2.3)); for (int i = 0; i < r.nvoi; i++) e[i] = sc * rr(-1, 1);
					m->set_macro_strain(5 * g + 1, e);
				}
				std::vector<std::vector<double>> str; for (auto &gp : m->gauss_list) str.push_back(snap(gp.macro_strain, 6));
				m->homogenize(); int g = 0;
				for (auto &gp : m->gauss_list) {
					REQ(same(str[g], gp.macro_strain), "homogenisation changed a strain");
					// independent replay of this point from its committed history
					double e[6], s[6]; memcpy(e, gp.macro_strain, sizeof e); memcpy(q->vars_old, com[g].data(), nv * 8);
					bool nl; int its; double err, I = 0; for (int i = 0; i < r.dim; i++) for (int j = 0; j < r.nvoi; j++) I += m->ctan_lin[i * r.nvoi + j] * e[j];
					if (fabs(I) < p.mp[4] && !yl[g]) { REQ(!gp.int_vars_n, "a linear point got a history"); g++; continue; }
					q->set_displ(e); q->newton_raphson(&nl, &its, &err); q->newton_raphson(&nl, &its, &err); q->calc_ave_stress(s);
					if (!(err <= 1e-5) || !(gp.nr_err[0] <= 1e-5)) bad = true;   // no equilibrium was reached: nothing to compare
					if (gp.int_vars_n) for (int i = 0; i < nv; i++) REQ(gp.int_vars_n[i] == com[g][i], "step %d point %d: homogenising changed committed history variable %d", step, g, i);
					if (bad) break;
					if (nl) yl[g] = 1;
					REQ(!yl[g] == !gp.int_vars_n, "step %d point %d: history %s, expected %s", step, g, gp.int_vars_n ? "stored" : "absent", yl[g] ? "stored" : "absent");
					if (gp.int_vars_n) for (int i = 0; i < nv; i++) REQ(gp.int_vars_n[i] == com[g][i], "step %d point %d: homogenising changed committed history variable %d", step, g, i);
					if (yl[g]) tri[g] = snap(q->vars_new, nv);
					g++;
				}
			}
			if (bad) break;
			for (int k = lng ? 1 + 2 * (ri(0, 3) == 0) : ri(0, 3); k > 0; k = k > 2 ? 1 : 0) {       // 3: twice in a row
				std::vector<gp_t> before(m->gauss_list.begin(), m->gauss_list.end());
				m->update_vars(); int g = 0;
				for (auto &gp : m->gauss_list) {
					REQ(!memcmp(&before[g], &gp, sizeof gp), "update changed a Gauss point record");
					if (gp.int_vars_n) {
						double sc = amax(tri[g].data(), nv);
						for (int i = 0; i < nv; i++) NEAR(gp.int_vars_n[i], tri[g][i], 1e-6 * sc + 1e-9, "step %d point %d: committed history variable %d after update", step, g, i);
						com[g] = snap(gp.int_vars_n, nv);
					}
					REQ(!yl[g] == !gp.int_vars_n, "update changed which points have a history");
					g++;
				}
			}
		}
		delete q; delete m;
	}
}
