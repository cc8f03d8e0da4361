#include "harness.h"
#include "fisx_material.h"
using namespace vt; using namespace fisx;
static void oracle(const std::vector<std::string> & n, const std::vector<double> & a, const std::map<std::string, double> & c, const std::string & what)
{
    std::map<std::string, double> e; double tot = 0;
    for (size_t i = 0; i < a.size(); i++) { e[n[i]] += a[i]; tot += a[i]; }
    std::string in = what + " names=" + show(n) + " amounts=" + show(a) + " -> " + show(c);
    double s = 0; bool ok = c.size() == e.size();
    for (std::map<std::string, double>::const_iterator i = c.begin(); i != c.end(); ++i) {
        s += i->second;
        if (!e.count(i->first)) { ok = false; continue; }
        if (!near(i->second, e[i->first] / tot)) ok = false;
    }
    CHECK(ok, "wrong fractions: " + in);
    if (a.size()) CHECK(near(s, 1.0), "fractions do not add to one: " + in);
}
int main()
{
    Rng r(seed());
    const char * pool[] = {"Fe", "Cr", "Ni", "Fe2O3", "Water", "A", ""};
    int N = thorough() ? 60000 : 6000;
    Material keep("keep", 1.0, 1.0, "");
    for (int it = 0; it < N; it++) {
        int n = r.below(6), m = r.below(12) ? n : r.below(6);
        std::vector<std::string> names; std::vector<double> am;
        int dist = r.below(3);
        for (int i = 0; i < n; i++) names.push_back(dist ? pool[r.below(6)] : pool[i % 7]);
        for (int i = 0; i < m; i++) am.push_back(r.logu(1e-8, 1e8));
        if (m && r.below(6) == 0) am[r.below(m)] = r.coin() ? 0.0 : -r.logu(1e-9, 1e3);
        bool bad = n != m; for (int i = 0; i < m; i++) if (!(am[i] > 0)) bad = true;
        std::map<std::string, double> before = keep.getComposition();
        std::string ex = thrown([&] { keep.setComposition(names, am); });
        std::string in = "names=" + show(names) + " amounts=" + show(am);
        at(in);
        if (bad) { CHECK(ex == "invalid_argument", "not rejected (" + ex + "): " + in); CHECK(keep.getComposition() == before, "rejected input changed the composition: " + in); }
        else { CHECK(ex == "", "rejected (" + ex + "): " + in); oracle(names, am, keep.getComposition(), "vector form"); }
        std::map<std::string, double> mp; for (int i = 0; i < n && i < m; i++) mp[names[i]] = am[i];
        std::vector<std::string> mn; std::vector<double> ma; bool mbad = false;
        for (std::map<std::string, double>::iterator i = mp.begin(); i != mp.end(); ++i) { mn.push_back(i->first); ma.push_back(i->second); if (!(i->second > 0)) mbad = true; }
        before = keep.getComposition();
        ex = thrown([&] { keep.setComposition(mp); });
        if (mbad) { CHECK(ex == "invalid_argument", "map not rejected: " + show(mp)); CHECK(keep.getComposition() == before, "rejected map changed the composition: " + show(mp)); }
        else { CHECK(ex == "", "map rejected (" + ex + "): " + show(mp)); oracle(mn, ma, keep.getComposition(), "map form"); }
        if (it < 2) sample(in);
        double d = r.coin() ? r.logu(1e-5, 30) : (r.coin() ? 0.0 : -r.uni()), t = r.coin() ? r.logu(1e-5, 30) : (r.coin() ? 0.0 : -1.0);
        std::string nm = pool[r.below(7)];
        Material x("old", 3.0, 4.0, "c");
        ex = thrown([&] { x.initialize(nm, d, t, "note"); });
        std::string nn = pool[r.below(7)];
        { Material y; std::string e1 = thrown([&] { y.setName(nm); }); CHECK(nm.empty() ? e1 == "invalid_argument" : (e1 == "" && y.getName() == nm), "setName('" + nm + "') on a fresh material: " + e1);
          std::string had = y.getName(); if (!nm.empty()) { e1 = thrown([&] { y.setName(nn); }); CHECK(e1 == "invalid_argument" && y.getName() == had, "material '" + had + "' renamed to '" + nn + "'"); }
          std::string ec = thrown([&] { Material z(nm, d, t, "note"); CHECK(z.getName() == nm && z.getDefaultDensity() == d && z.getDefaultThickness() == t && z.getComment() == "note" && z.getComposition().empty(), "constructor does not store " + nm); });
          CHECK(ec == (nm.empty() || d <= 0 || t <= 0 ? "invalid_argument" : ""), "constructor name='" + nm + "' density=" + num(d) + " thickness=" + num(t) + ": " + ec); }
        std::string in2 = "initialize name='" + nm + "' density=" + num(d) + " thickness=" + num(t);
        if (nm.empty() || d <= 0 || t <= 0) { CHECK(ex == "invalid_argument", "not rejected: " + in2); CHECK(x.getName() == "old" && x.getDefaultDensity() == 3.0 && x.getDefaultThickness() == 4.0 && x.getComment() == "c", "rejected input changed the material: " + in2); }
        else { CHECK(ex == "", "rejected: " + in2); CHECK(x.getName() == nm && x.getDefaultDensity() == d && x.getDefaultThickness() == t && x.getComment() == "note", "not stored: " + in2); }
    }
    return finish();
}
