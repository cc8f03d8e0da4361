#include "harness.h"
#include "fisx_transmissiontable.h"
using namespace vt; using namespace fisx;
typedef std::map<double, double> M;
static std::string str(const M & m) { std::string s = "{"; for (M::const_iterator i = m.begin(); i != m.end(); ++i) s += (s.size() > 1 ? "," : "") + num(i->first) + ":" + num(i->second); return s + "}"; }
static double value(const M & m, double e)
{
    if (m.empty()) return 1.0;
    M::const_iterator p = m.end();
    for (M::const_iterator i = m.begin(); i != m.end(); ++i) {
        if (e <= i->first) { if (e == i->first || p == m.end()) return i->second; return p->second + (i->second - p->second) * ((e - p->first) / (i->first - p->first)); }
        p = i;
    }
    return p->second;
}
int main()
{
    Rng r(seed());
    int N = thorough() ? 40000 : 3000;
    for (int it = 0; it < N; it++) {
        std::string n0 = r.coin() ? "N" : "", c0 = r.coin() ? "C" : "";
        TransmissionTable t(n0, c0); if (r.below(4) == 0) { t = TransmissionTable(); t.setName(n0); t.setComment(c0); }
        CHECK(t.getTransmission(r.in(0, 100)) == 1.0, "a fresh table attenuates");
        M cur = t.getTransmissionTable(); std::string nm = n0, cm = c0, hist = "table('" + n0 + "','" + c0 + "')";
        for (int op = 0; op < 4; op++) {
            std::vector<double> e, v; int n = r.below(5) == 0 ? r.below(25) : r.below(6); double x = r.below(4) ? r.in(0, 2) : 0.0;
            bool asc = r.below(6) != 0;
            for (int i = 0; i < n; i++) { e.push_back(asc ? x : r.in(-0.5, 10)); v.push_back(r.below(30) ? r.uni() : -r.uni()); if (!(r.below(5) == 0 && (i < 1 || e[i] != e[i - 1]))) x += r.in(0.01, 3); }
            if (n && r.below(15) == 0) e[r.below(n)] *= -1;
            std::string nn = r.below(3) ? "" : "X", nc = r.below(3) ? "" : "Y";
            bool vec = r.coin(), bad = (nm.size() && nn.size()) || (cm.size() && nc.size()); M m;
            if (vec) {
                if (r.below(12) == 0) v.push_back(0.5);
                bad = bad || e.size() != v.size();
                if (e.size() == v.size()) for (size_t i = 0; i < e.size(); i++) { if (e[i] < 0 || v[i] < 0 || (i && e[i] < e[i - 1])) bad = true; m[i && e[i] == e[i - 1] ? e[i] + 0.000001 : e[i]] = v[i]; }
            } else for (size_t i = 0; i < e.size(); i++) m[e[i]] = v[i];
            if (!vec) for (M::iterator i = m.begin(); i != m.end(); ++i) if (i->first < 0 || i->second < 0) bad = true;
            hist += std::string(" set(") + (vec ? show(e) + "," + show(v) : str(m)) + ",'" + nn + "','" + nc + "')";
            at(hist); if (it < 3) sample(hist);
            std::string ex = thrown([&] { if (vec) t.setTransmissionTable(e, v, nn, nc); else t.setTransmissionTable(m, nn, nc); });
            if (bad) CHECK(ex == "invalid_argument", "not rejected: " + hist);
            else { CHECK(ex == "", "rejected: " + hist); cur = m; if (nn.size()) nm = nn; if (nc.size()) cm = nc; }
            CHECK(t.getTransmissionTable() == cur, "tabulated values after " + hist + " are " + str(t.getTransmissionTable()));
            CHECK(t.getName() == nm && t.getComment() == cm, "labels after " + hist);
            std::vector<double> q, a; for (M::iterator i = cur.begin(); i != cur.end(); ++i) if (r.coin()) { q.push_back(i->first); q.push_back(i->first + r.in(-0.5, 0.5)); }
            q.push_back(0.0); q.push_back(1e4); q.push_back(r.in(0, 20)); if (r.coin()) std::reverse(q.begin(), q.end());
            a = t.getTransmission(q); CHECK(a.size() == q.size(), "list form length: " + hist);
            for (size_t i = 0; i < q.size() && i < a.size(); i++) { NEAR(a[i], t.getTransmission(q[i]), "list form at " + num(q[i]) + " after " + hist); NEAR(a[i], value(cur, q[i]), "transmission at " + num(q[i]) + " after " + hist); }
        }
    }
    return finish();
}
