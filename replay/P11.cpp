#include "harness.h"
#include "fisx_beam.h"
using namespace vt; using namespace fisx;
struct G { double e, w; int c; double d; };
static std::string str(const std::vector<G> & g) { std::string s; for (size_t i = 0; i < g.size(); i++) s += "(" + num(g[i].e) + "," + num(g[i].w) + "," + num(g[i].c) + "," + num(g[i].d) + ")"; return s; }
static bool lt(const G & a, const G & b) { if (a.e != b.e) return a.e < b.e; if (a.w != b.w) return a.w < b.w; if (a.c != b.c) return a.c < b.c; return a.d < b.d; }
static void compare(Beam & b, std::vector<G> g, const std::string & in)
{
    double tot = 0; for (size_t i = 0; i < g.size(); i++) tot += g[i].w;
    const std::vector<Ray> & r = b.getBeam();
    if (!CHECK(r.size() == g.size(), "number of rays: " + in)) return;
    double s = 0; std::vector<G> h;
    for (size_t i = 0; i < r.size(); i++) {
        s += r[i].weight; G x; x.e = r[i].energy; x.w = r[i].weight; x.c = r[i].characteristic; x.d = r[i].divergency; h.push_back(x);
        if (i) CHECK(r[i - 1].energy <= r[i].energy, "not sorted: " + in);
    }
    if (tot > 0) { for (size_t i = 0; i < g.size(); i++) g[i].w /= tot; NEAR(s, 1.0, "weights do not sum to one: " + in); }
    std::sort(g.begin(), g.end(), lt); std::sort(h.begin(), h.end(), lt);
    bool same = true;
    for (size_t i = 0; i < g.size(); i++) same = same && g[i].e == h[i].e && near(g[i].w, h[i].w) && g[i].c == h[i].c && g[i].d == h[i].d;
    CHECK(same, "rays are not the given ones: " + in + " got " + str(h));
    std::vector<std::vector<double> > t = b.getBeamAsDoubleVectors();
    if (!CHECK(t.size() == 4, "table rows: " + in)) return;
    for (int q = 0; q < 4; q++) if (!CHECK(t[q].size() == r.size(), "table row length: " + in)) return;
    for (size_t i = 0; i < r.size(); i++) CHECK(t[0][i] == r[i].energy && t[1][i] == r[i].weight && t[2][i] == r[i].characteristic && t[3][i] == r[i].divergency, "table: " + in);
}
int main()
{
    Rng r(seed());
    int N = thorough() ? 60000 : 4000;
    Beam b;
    for (int it = 0; it < N; it++) {
        int n = r.below(6) == 0 ? r.below(40) : r.below(6);
        std::vector<double> e, w, d, cd; std::vector<int> c;
        bool ties = r.below(3) == 0;
        for (int i = 0; i < n; i++) {
            e.push_back(ties ? 1.0 + r.below(3) : r.in(1, 50)); w.push_back(r.below(8) ? r.logu(1e-6, 1e3) : 0.0); c.push_back(r.below(4)); d.push_back(r.in(0, 0.1)); cd.push_back(c.back() + (r.coin() ? 0.0 : 0.5));
        }
        int mode = r.below(4);
        if (mode == 0) {
            int mw = r.below(3), mc = r.below(3), md = r.below(3);
            if (mw == 0) w.clear(); else if (mw == 1) { w.resize(1, 0); w[0] = r.logu(1e-3, 10); }
            if (mc == 0) c.clear(); else if (mc == 1) { c.resize(1, 0); c[0] = r.below(3); }
            if (md == 0) d.clear(); else if (md == 1) { d.resize(1, 0); d[0] = r.uni(); }
            std::vector<G> g;
            for (int i = 0; i < n; i++) { G x; x.e = e[i]; x.w = w.size() > 1 ? w[i] : w.size() ? w[0] : 1.0; x.c = c.size() > 1 ? c[i] : c.size() ? c[0] : 1; x.d = d.size() > 1 ? d[i] : d.size() ? d[0] : 0.0; g.push_back(x); }
            std::string in = "setBeam(energy=" + show(e) + ", weight=" + show(w) + ", " + num(c.size()) + " characteristics, divergency=" + show(d) + ")";
            at(in); if (it < 3) sample(in);
            b.setBeam(e, w, c, d); compare(b, g, in);
        } else if (mode < 3) {
            bool nw = r.coin(), nc = r.coin(), nd = r.coin();
            double z = 0; int zi = 0;
            std::vector<G> g;
            for (int i = 0; i < n; i++) { G x; x.e = e[i]; x.w = nw ? 1.0 : w[i]; x.c = nc ? 1 : c[i]; x.d = nd ? 0.0 : d[i]; g.push_back(x); }
            std::string in = std::string(mode == 1 ? "int" : "double") + " setBeam(" + num(n) + ", " + show(e) + ", " + (nw ? "NULL" : show(w)) + ", " + (nc ? "NULL" : "characteristics") + ", " + (nd ? "NULL" : show(d)) + ")";
            at(in);
            const double * pe = n ? &e[0] : &z, * pw = nw ? 0 : n ? &w[0] : &z, * pd = nd ? 0 : n ? &d[0] : &z;
            if (mode == 1) b.setBeam(n, pe, pw, nc ? (const int *) 0 : n ? &c[0] : &zi, pd);
            else b.setBeam(n, pe, pw, nc ? (const double *) 0 : n ? &cd[0] : &z, pd);
            compare(b, g, in);
        } else {
            double en = r.in(1, 50), dv = r.uni(); std::string in = "setSingleEnergyBeam(" + num(en) + "," + num(dv) + ")"; at(in);
            b.setSingleEnergyBeam(en, dv); G x; x.e = en; x.w = 1; x.c = 1; x.d = dv; compare(b, std::vector<G>(1, x), in);
        }
    }
    return finish();
}
