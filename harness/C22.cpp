#include "common.hpp"
// the three logs: earlier content kept, one line per call, the points' values in order
static const char *LOG[3] = {"micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat"};
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<std::string> toks(const std::string &l) { std::stringstream s(l); std::vector<std::string> v; std::string x; while (s >> x) v.push_back(x); return v; }
void run() {
	for (int c = 0; c < nc(30); c++) {
		Par p = rcell(c % 3 == 0 ? 2 : 3, c % 3 ? 3 : 4); Ref r(p); int nv = r.nvoi, N = r.nn * r.dim;
		if (c % 2) for (auto f : LOG) { std::ofstream o(f); o << "left over\n"; }
		micropp_t *m = p.make();
		for (auto f : LOG) REQ(slurp(f).empty(), "%s of a new cell is not empty", f);
		std::string before[3]; int calls = 0, steps = ri(2, 4), nid = ri(1, 3), ids[3]; bool cm = c % 5 != 4;
		for (int k = 0; k < nid; k++) ids[k] = ri(-3, 9) * 5 + k;
		for (int st = 0; st < steps; st++) {
			for (int k = 0; k < nid; k++) if (ri(0, 3) || st == 0) { double e[6]; reps(r, e); double s = ri(0, 2) ? 0.5 : 1e-3; for (int i = 0; i < nv; i++) e[i] *= s; m->set_macro_strain(ids[k], e); }
			if (cm || ri(0, 2)) m->homogenize();
			if (ri(0, 1)) m->update_vars();
			if (st == 0 && nid > 1 && ri(0, 2) == 0) { double e[6] = {0}; m->set_macro_strain(77, e); }
			if (ri(0, 3) == 0) continue;
			std::vector<double> s0, s1;
			auto S = [&](std::vector<double> &s) { for (int i = 0; i < N; i++) { s.push_back(m->u[i]); s.push_back(m->b[i]); s.push_back(m->du[i]); } for (int i = 0; i < r.nelem * 56; i++) { s.push_back(m->vars_old[i]); s.push_back(m->vars_new[i]); }
				for (int i = 0; i < nv * nv; i++) s.push_back(m->ctan_lin[i]); s.push_back(m->inv_max);
				for (auto &g : m->gauss_list) { s.push_back(g.id); for (int i = 0; i < 6; i++) { s.push_back(g.macro_strain[i]); s.push_back(g.macro_stress[i]); } for (int i = 0; i < 36; i++) s.push_back(g.macro_ctan[i]); for (int i = 0; i < 7; i++) { s.push_back(g.nr_its[i]); s.push_back(g.nr_err[i]); } s.push_back(g.inv_max);
					s.push_back(g.int_vars_n != NULL); s.push_back(g.int_vars_k != NULL); if (g.int_vars_n) for (int i = 0; i < r.nelem * 56; i++) s.push_back(g.int_vars_n[i]); if (g.int_vars_k) for (int i = 0; i < r.nelem * 56; i++) s.push_back(g.int_vars_k[i]); } };
			S(s0); m->write_info_files(); S(s1); REQ(s0.size() == s1.size() && same(s0, s1.data()), "writing the logs changed the cell");
			for (int f = 0; f < 3; f++) {
				std::string t = slurp(LOG[f]); REQ(t.compare(0, before[f].size(), before[f]) == 0, "%s: earlier content was lost", LOG[f]);
				std::string add = t.substr(before[f].size()); before[f] = t; REQ(!add.empty() && add.back() == '\n', "%s: call %d ends in the middle of a line", LOG[f], calls);
				std::vector<std::string> head, data; { std::stringstream s(add); std::string l; while (std::getline(s, l)) { auto v = toks(l); if (v.empty() ? data.empty() : v[0][0] == '#') head.push_back(l); else data.push_back(l); } }
				REQ(data.size() == 1, "%s: %zu lines of data in one call", LOG[f], data.size());
				if (calls) REQ(head.empty(), "%s: header repeated in call %d", LOG[f], calls);
				else if (f < 2) {
					REQ(!head.empty(), "%s: no header", LOG[f]); auto v = toks(head[0]); size_t q = 0; while (q < v.size() && v[q] != ":") q++; q++;
					for (auto &g : m->gauss_list) { REQ(q < v.size() && v[q] == std::to_string(g.id), "%s: identifiers in the header", LOG[f]); q++; }
					REQ(q >= v.size() || v[q][0] == '#', "%s: more identifiers than points in the header", LOG[f]);
				}
				std::vector<double> w; std::vector<char> bar; auto put = [&](double x) { w.push_back(x); bar.push_back(0); };
				for (auto &g : m->gauss_list) {
					if (f == 0) { put(g.int_vars_n != NULL); put(g.inv_max); for (int i = 0; i < 1 + nv; i++) { put(g.nr_its[i]); put(g.nr_err[i]); } }
					if (f == 1) { for (int i = 0; i < 6; i++) put(g.macro_strain[i]); for (int i = 0; i < 6; i++) put(g.macro_stress[i]); for (int i = 0; i < 36; i++) put(g.macro_ctan[i]); }
					if (f == 2) for (int i = 0; i < r.nelem * 56; i++) put(g.int_vars_n ? g.int_vars_n[i] : 0);
					w.push_back(0); bar.push_back(1);
				}
				auto v = toks(data[0]); REQ(v.size() == w.size(), "%s: %zu entries on the line, expected %zu", LOG[f], v.size(), w.size());
				for (size_t i = 0; i < v.size(); i++) {
					if (bar[i]) { REQ(v[i] == "|", "%s: entry %zu is %s, expected a bar", LOG[f], i, v[i].c_str()); continue; }
					char *q; double x = strtod(v[i].c_str(), &q); REQ(!*q && v[i] != "|", "%s: entry %zu is %s", LOG[f], i, v[i].c_str());
					NEAR(x, w[i], 2e-5 * fabs(w[i]), "%s: entry %zu", LOG[f], i);
				}
			}
			calls++;
		}
		delete m; for (auto f : LOG) remove(f); remove("micropp_materials.dat");
	}
}
