#include "harness.h"
#include "fisx_shell.h"
using namespace vt; using namespace fisx;
typedef std::map<std::string, double> M; typedef std::map<std::string, M> MM;
static std::string up(std::string s) { for (size_t i = 0; i < s.size(); i++) s[i] = (char) toupper(s[i]); return s; }
static bool starts(const std::string & s, const std::string & p) { return s.compare(0, p.size(), p) == 0; }
static bool same(const M & a, const M & b)
{
    if (a.size() != b.size()) return false;
    for (M::const_iterator i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || !near(i->second, j->second)) return false;
    return true;
}
static std::string subs[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1", "N2", "N5", "O1", "O2", "P3"};
static std::string lower(Rng & r, std::string s) { if (r.below(4) == 0) for (size_t i = 0; i < s.size(); i++) if (r.coin()) s[i] = (char) tolower(s[i]); return s; }
static double rate(Rng & r) { switch (r.below(7)) { case 0: return 0.0; case 1: return r.logu(1e-8, 1); default: return r.uni(); } }
int main()
{
    Rng r(seed());
    int N = thorough() ? 40000 : 4000;
    const std::string nine[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};
    const char * bad[] = {"", "L", "M", "N1", "L0", "L4", "M0", "M6", "K1", "LX", "k", "L12", "M10", "X"};
    for (size_t i = 0; i < sizeof bad / sizeof *bad; i++) { std::string b = bad[i]; CHECK(thrown([&] { Shell s(b); }) == "invalid_argument", "shell name <" + b + "> is accepted"); }
    for (int it = 0; it < N; it++) {
        std::string n = nine[r.below(9)]; Shell s(n); std::string h = "Shell(" + n + ")";
        int top = n[0] == 'K' ? 0 : n[0] == 'L' ? 3 : 5, sub = n.size() > 1 ? n[1] - '0' : 0;
        M consts; consts["omega"] = 0; for (int j = sub + 1; j <= top; j++) consts["f" + std::to_string(sub) + std::to_string(j)] = 0;
        CHECK(same(s.getShellConstants(), consts), h + " constants " + show(s.getShellConstants()));
        M rad, fl, nr, au; MM ck; bool inf = false;
        int ops = 2 + r.below(5);
        for (int op = 0; op < ops; op++) {
            int form = r.below(3); std::vector<std::string> l; std::vector<double> v;
            switch (r.below(3)) {
            case 0: {   // radiative
                int k = r.below(8); bool ok = true;
                for (int i = 0; i < k; i++) {
                    std::string x;
                    switch (r.below(12)) {
                    case 0: x = "TOTAL"; break;
                    case 1: x = n == "K" ? "KO" : n + "O1"; break;
                    case 2: x = n == "K" ? "KP" : n + "P1"; break;
                    case 3: x = n.size() == 2 ? n + "P23" : "KM45"; break;
                    case 4: if (r.below(6) == 0) { x = n == "K" ? "L3M5" : "KL3"; break; }
                    case 5: if (r.below(10) == 0) { x = n + "ABC"; if (x.size() == 4) x += "D"; break; }
                    default: x = n + subs[r.below(15)];
                    }
                    l.push_back(lower(r, x)); v.push_back(rate(r));
                }
                if (form == 1) { M m; for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; l.clear(); v.clear(); for (M::iterator i = m.begin(); i != m.end(); ++i) { l.push_back(i->first); v.push_back(i->second); } }
                M want;
                for (size_t i = 0; i < l.size(); i++) {
                    std::string u = up(l[i]); if (u.size() == 2) u += "2";
                    if (u.size() == 5 && u != "TOTAL") { if (isdigit(u[3]) && isdigit(u[4])) want[u.substr(0, 4)] = v[i]; else ok = false; }
                    else if (u == "TOTAL" || starts(u, n)) want[u] = v[i]; else ok = false;
                }
                h += " radiative" + std::to_string(form) + "(" + show(l) + "," + show(v) + ")"; at(h);
                std::string t = thrown([&] {
                    if (form == 0) s.setRadiativeTransitions(l, v);
                    else if (form == 1) { M m; for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; s.setRadiativeTransitions(m); }
                    else { std::vector<const char *> c; for (size_t i = 0; i < l.size(); i++) c.push_back(l[i].c_str()); c.push_back(0); v.push_back(0); s.setRadiativeTransitions(&c[0], &v[0], (int) l.size()); v.pop_back(); } });
                CHECK(t == (ok ? "" : "invalid_argument"), h + " threw <" + t + ">");
                if (!ok) { op = ops; continue; }
                rad = want; fl.clear(); double tot = 0;
                for (M::iterator i = rad.begin(); i != rad.end(); ++i) if (i->first != "TOTAL") tot += i->second;
                for (M::iterator i = rad.begin(); i != rad.end(); ++i) if (i->first != "TOTAL" && i->second > 0) fl[i->first] = i->second / tot;
                break; }
            case 1: {   // nonradiative
                int k = r.below(12);
                for (int i = 0; i < k; i++) { std::string x = r.below(9) ? n + "-" + subs[r.below(10)] + subs[r.below(10)] : "TOTAL"; if (r.below(3) == 0 && top) x = n + "-" + n.substr(0, 1) + std::to_string(1 + r.below(top)) + subs[r.below(10)]; l.push_back(lower(r, x)); double q = rate(r); v.push_back(up(x) == "TOTAL" ? 20 * q + 0.1 : r.below(15) == 0 ? -q : q); }
                if (form == 1) { M m; for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; l.clear(); v.clear(); for (M::iterator i = m.begin(); i != m.end(); ++i) { l.push_back(i->first); v.push_back(i->second); } }
                h += " nonradiative" + std::to_string(form) + "(" + show(l) + "," + show(v) + ")"; at(h);
                std::string t = thrown([&] {
                    if (form == 0) s.setNonradiativeTransitions(l, v);
                    else if (form == 1) { M m; for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; s.setNonradiativeTransitions(m); }
                    else { std::vector<const char *> c; for (size_t i = 0; i < l.size(); i++) c.push_back(l[i].c_str()); c.push_back(0); v.push_back(0); s.setNonradiativeTransitions(&c[0], &v[0], (int) l.size()); v.pop_back(); } });
                CHECK(t == "", h + " threw <" + t + ">");
                nr.clear(); for (size_t i = 0; i < l.size(); i++) nr[up(l[i])] = v[i];
                double tot = 0; for (M::iterator i = nr.begin(); i != nr.end(); ++i) if (i->first != "TOTAL") tot += i->second;
                if (!nr.count("TOTAL")) nr["TOTAL"] = tot;
                ck.clear(); au.clear(); double cks = 0; std::set<std::string> in;
                if (top) for (int j = sub + 1; j <= top; j++) {
                    M & g = ck["f" + std::to_string(sub) + std::to_string(j)]; double gt = 0; std::string p = n + "-" + n[0] + std::to_string(j);
                    for (M::iterator i = nr.begin(); i != nr.end(); ++i) if (i->second > 0 && starts(i->first, p)) { gt += i->second; in.insert(i->first); }
                    for (M::iterator i = nr.begin(); i != nr.end(); ++i) if (i->second > 0 && starts(i->first, p)) g[i->first] = i->second / gt;
                    g["TOTAL"] = gt; cks += gt;
                }
                double at_ = nr["TOTAL"] - cks; inf = std::fabs(at_) < 1e-6;
                for (M::iterator i = nr.begin(); i != nr.end(); ++i) if (i->second > 0 && i->first != "TOTAL" && !in.count(i->first)) au[i->first] = i->second / at_;
                au["TOTAL"] = at_;
                break; }
            default: {  // constants
                M c; bool known = true; double left = r.below(8) ? 1.0 : 1.5;
                for (M::iterator i = consts.begin(); i != consts.end(); ++i) if (r.below(3)) { c[i->first] = left * r.uni() * 0.7; left -= c[i->first]; }
                if (r.below(10) == 0) { c[r.coin() ? "f11" : "zeta"] = 0.1; known = false; }
                h += " constants(" + show(c) + ")"; at(h);
                std::string t = thrown([&] { s.setShellConstants(c); });
                CHECK(t == (known ? "" : "invalid_argument"), h + " threw <" + t + ">");
                if (!known) { op = ops; continue; }
                for (M::iterator i = c.begin(); i != c.end(); ++i) consts[i->first] = i->second;
            } }
            if (it < 2) sample(h);
            CHECK(same(s.getRadiativeTransitions(), rad), h + " radiative transitions " + show(s.getRadiativeTransitions()));
            CHECK(same(s.getFluorescenceRatios(), fl), h + " fluorescence ratios " + show(s.getFluorescenceRatios()) + " expected " + show(fl));
            double sum = 0; for (M::const_iterator i = s.getFluorescenceRatios().begin(); i != s.getFluorescenceRatios().end(); ++i) sum += i->second;
            CHECK(fl.empty() || near(sum, 1.0), h + " fluorescence ratios sum to " + num(sum));
            CHECK(same(s.getShellConstants(), consts), h + " constants " + show(s.getShellConstants()));
            NEAR(s.getFluorescenceYield(), consts["omega"], h + " fluorescence yield");
            if (inf) continue;
            CHECK(same(s.getNonradiativeTransitions(), nr), h + " nonradiative transitions " + show(s.getNonradiativeTransitions()));
            CHECK(same(s.getAugerRatios(), au), h + " Auger ratios " + show(s.getAugerRatios()) + " expected " + show(au));
            const MM & g = s.getCosterKronigRatios(); bool eq = g.size() == ck.size();
            for (MM::iterator i = ck.begin(); eq && i != ck.end(); ++i) eq = g.count(i->first) && same(g.find(i->first)->second, i->second);
            CHECK(eq, h + " Coster-Kronig groups differ");
            // vacancies
            std::string d = subs[r.below(15)]; if (r.below(30) == 0) d = "M10";
            double tot = 0; for (M::iterator i = consts.begin(); i != consts.end(); ++i) tot += i->second;
            if (std::fabs(tot - 1.0001) < 1e-6) continue;
            M got, want; at(h + " vacancies to " + d);
            std::string t = thrown([&] { got = s.getDirectVacancyTransferRatios(d); });
            std::string w = d.size() != 2 ? "invalid_argument" : tot > 1.0001 ? "domain_error" : "";
            CHECK(t == w, h + " vacancies to " + d + " threw <" + t + "> expected <" + w + ">");
            if (t != "" || w != "") continue;
            std::string p = n + "-" + d;
            want["fluorescence"] = (fl.count(n + d) ? fl[n + d] : 0) * consts["omega"];
            double a = 0; for (M::iterator i = au.begin(); i != au.end(); ++i) { if (starts(i->first, p)) a += i->second; if (i->first.substr(i->first.size() - 2) == d) a += i->second; }
            want["auger"] = a * (1 - tot);
            for (MM::iterator q = ck.begin(); q != ck.end(); ++q) { a = 0; for (M::iterator i = q->second.begin(); i != q->second.end(); ++i) { if (starts(i->first, p)) a += i->second; if (i->first.substr(i->first.size() - 2) == d) a += i->second; } want[q->first] = a * consts[q->first]; }
            CHECK(same(got, want), h + " vacancies to " + d + " are " + show(got) + " expected " + show(want));
        }
    }
    return finish();
}
