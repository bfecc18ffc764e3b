#include "common.hpp"
void run() {
	for (int c = 0; c < nc(30); c++) {
		Par p = rcell(c % 2 ? 3 : 2, 3); p.mp[4] = c % 3 ? 1e30 : 0; p.str(); Ref r(p); micropp_t *m = p.make(); int n = r.nvoi;
		std::map<int, gp_t> want; std::vector<int> order; bool large = c % 15 == 14;   // many points
		for (int t = 0; t < (large ? 700 : 40); t++) {
			int id = ri(-3, 12), op = ri(0, 9); if (large) { id = ri(-1, 400); if (ri(0, 20) == 0) id = ri(0, 1) ? 2147483647 - ri(0, 2) : -2147483647 - 1 + ri(0, 2); if (op == 5 && t % 64) op = 0; }
			if (op < 5) {
				double e[6]; for (int i = 0; i < 6; i++) e[i] = rr(-1e-3, 1e-3);
				m->set_macro_strain(id, e);
				if (!want.count(id)) { gp_t g; memset(&g, 0, sizeof g); g.id = id; want[id] = g; order.push_back(id); }
				for (int i = 0; i < n; i++) want[id].macro_strain[i] = e[i];
				bool fresh = order.back() == id && m->gauss_list.size() == order.size();
				if (fresh) want[id].inv_max = m->gauss_list.back().inv_max;
			} else if (op == 5 && t > 20) {
				m->homogenize();
				for (auto &g : m->gauss_list) { REQ(want.count(g.id), "unknown id %d", g.id); want[g.id] = g; }
			} else {
				double s[6], k[36]; int fl = -9; for (auto &x : s) x = 123; for (auto &x : k) x = 321;
				m->get_macro_stress(id, s); m->get_macro_ctan(id, k); m->get_nl_flag(id, &fl);
				auto it = want.find(id);
				for (int i = 0; i < 6; i++) REQ(s[i] == (it == want.end() || i >= n ? 123 : it->second.macro_stress[i]), "stress %d of id %d (%s): %g", i, id, it == want.end() ? "unknown" : "known", s[i]);
				for (int i = 0; i < 36; i++) REQ(k[i] == (it == want.end() || i >= n * n ? 321 : it->second.macro_ctan[i]), "tangent %d of id %d (%s): %g", i, id, it == want.end() ? "unknown" : "known", k[i]);
				REQ(fl == (it != want.end() && it->second.int_vars_n != NULL), "nonlinear state of id %d: %d", id, fl);
			}
			REQ(m->gauss_list.size() == want.size(), "%zu records for %zu ids", m->gauss_list.size(), want.size());
			std::set<int> seen;
			for (auto &g : m->gauss_list) {
				REQ(seen.insert(g.id).second && want.count(g.id), "id %d appears twice or was never set", g.id); gp_t &w = want[g.id];
				REQ(g.int_vars_n == w.int_vars_n && g.int_vars_k == w.int_vars_k, "history of id %d changed", g.id);
				for (int i = 0; i < n; i++) REQ(g.macro_strain[i] == w.macro_strain[i] && g.macro_stress[i] == w.macro_stress[i] , "record of id %d: strain or stress component %d is wrong", g.id, i);
				for (int i = 0; i < n * n; i++) REQ(g.macro_ctan[i] == w.macro_ctan[i], "record of id %d: tangent is wrong", g.id);
				for (int i = 0; i < 1 + n; i++) REQ(g.nr_its[i] == w.nr_its[i] && g.nr_err[i] == w.nr_err[i], "record of id %d: iteration data is wrong", g.id);
				REQ(g.inv_max == w.inv_max, "record of id %d: inv_max is wrong", g.id);
			}
		}
		delete m;
	}
}
