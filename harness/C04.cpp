#include "common.hpp"
void run() {
	for (int c = 0; c < nc(40); c++) {
		Par p = rcell(3, 3); p.mt[0] = p.mt[1] = 1;
		for (int i = 0; i < 2; i++) if (ri(0, 2) == 0) p.pr[i * 10 + 3] = 0;
		p.str(); Ref r(p); micropp_t *m = p.make();
		for (int t = 0; t < 120; t++) {
			int ex = ri(0, r.nx - 2), ey = ri(0, r.ny - 2), ez = ri(0, r.nz - 2), gp = ri(0, 7), ph = r.phase(ex, ey, ez);
			double G = r.mu(ph), Sy = p.pr[ph * 10 + 2], Ka = p.pr[ph * 10 + 3], y = sqrt(2.0 / 3);
			double *h = r.hist(m->vars_old, ex, ey, ez, gp), old[7], e[6], s[6], sc = Sy / G * pow(10, rr(-2, 2));
			for (int i = 0; i < 6; i++) { h[i] = t % 3 ? rr(-1, 1) * Sy / G : 0; e[i] = sc * rr(-1, 1); }
			h[2] = -h[0] - h[1]; h[6] = t % 3 == 2 ? rr(0, 5) * Sy / G : 0;
			if (t % 7 == 0) for (int i = 0; i < 6; i++) { if (ri(0, 1)) e[i] = 0; }
			if (t % 5 == 0) {  // close to the stored state
				for (int i = 0; i < 6; i++) e[i] = (i < 3 ? 1 : 2) * h[i] + Sy / G * 0.2 * rr(-1, 1);
			}
			memcpy(old, h, sizeof old); bool nl = ri(0, 1), nl0;
			m->get_stress3D(ex, ey, ez, gp, e, &nl, s); nl0 = nl;
			const double *nw = r.hist(m->vars_new, ex, ey, ez, gp);
			double tr[6], tre = e[0] + e[1] + e[2], trp = old[0] + old[1] + old[2], n = 0, sd[6], sn = 0, S = fabs(amax(e, 6)) * r.E(ph) * 10 + Sy;
			for (int i = 0; i < 6; i++) tr[i] = i < 3 ? 2 * G * (e[i] - tre / 3 - old[i] + trp / 3) : G * (e[i] - 2 * old[i]);
			for (int i = 0; i < 6; i++) n += (i < 3 ? 1 : 2) * tr[i] * tr[i];
			n = sqrt(n);
			double f = n - y * (Sy + Ka * old[6]);
			double ps = (s[0] + s[1] + s[2]) / 3;
			for (int i = 0; i < 6; i++) { sd[i] = i < 3 ? s[i] - ps : s[i]; sn += (i < 3 ? 1 : 2) * sd[i] * sd[i]; }
			sn = sqrt(sn);
			casedesc += ""; char b[400];
			snprintf(b, sizeof b, " strain={%g,%g,%g,%g,%g,%g} history={%g,%g,%g,%g,%g,%g,%g}", e[0], e[1], e[2], e[3], e[4], e[5], old[0], old[1], old[2], old[3], old[4], old[5], old[6]);
			std::string keep = casedesc; casedesc += b;
			REQ(sn <= y * (Sy + Ka * nw[6]) + 1e-9 * S, "stress outside the yield surface of the updated state: |s|=%g limit=%g", sn, y * (Sy + Ka * nw[6]));
			double ee[6], se[6];
			for (int i = 0; i < 6; i++) ee[i] = e[i] - (i < 3 ? 1 : 2) * nw[i];
			r.hooke(ph, ee, se);
			// elastic law; the pressure follows the total volumetric strain because flow is deviatoric
			for (int i = 0; i < 6; i++) NEAR(s[i], se[i], 1e-8 * S, "stress component %d is not the elastic law of strain minus plastic strain", i);
			NEAR(nw[0] + nw[1] + nw[2], trp, 1e-9 * (S / r.E(ph)), "plastic flow is not deviatoric");
			REQ(nw[6] >= old[6], "accumulated plastic strain decreased: %g -> %g", old[6], nw[6]);
			if (f < -1e-9 * S) {
				for (int i = 0; i < 7; i++) REQ(nw[i] == old[i], "history variable %d changed without yielding", i);
				REQ(!nl0, "flagged nonlinear without yielding");
			}
			if (f > 1e-9 * S) {
				REQ(nl0, "yielded but not flagged nonlinear");
				double lam = (nw[6] - old[6]) / y;
				REQ(lam > 0, "yielded without plastic strain");
				for (int i = 0; i < 6; i++) NEAR(nw[i] - old[i], lam * tr[i] / n, 1e-8 * (S / r.E(ph)), "plastic flow component %d is not along the trial deviatoric stress", i);
			}
			for (int i = 0; i < 7; i++) REQ(h[i] == old[i], "committed history changed");
			casedesc = keep;
		}
		delete m;
	}
}
