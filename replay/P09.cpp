#include "harness.h"
#include "synthdata.h"
#include "fisx_elements.h"
#include "fisx_layer.h"
using namespace vt; using namespace fisx;
int main()
{
    Rng r(seed());
    std::string d = scratch() + "/lib";
    synth::make(synth::dataDir(), d);
    Elements lib(d);
    Material water("Water", 1.0, 0.01, ""); { std::map<std::string, double> m; m["H"] = 0.1119; m["O"] = 0.8881; water.setComposition(m); }
    Material steel("Steel", 7.8, 0.02, ""); { std::map<std::string, double> m; m["Fe"] = 0.7; m["Cr"] = 0.2; m["Ni"] = 0.1; steel.setComposition(m); }
    lib.addMaterial(water); lib.addMaterial(steel);
    const char * names[] = {"Fe", "Water", "SiO2", "Pb", "Steel", "C22H10N2O5"};
    const double deg = std::acos(-1.0) / 180.0;
    int N = thorough() ? 8000 : 600;
    for (int it = 0; it < N; it++) {
        std::string nm = names[r.below(6)];
        double rho = r.logu(1e-4, 25), th = r.logu(1e-7, 1.0), f = r.below(3) ? 1.0 : (r.below(4) ? r.uni() : 0.0);
        double ang = r.below(3) == 0 ? 90.0 : (r.coin() ? r.in(0.5, 179.5) : r.in(-179.5, -0.5));
        if (r.below(10) == 0) ang = -90.0;
        if (r.below(20) == 0) rho = 0.0;
        if (r.below(20) == 0) th = r.coin() ? 0.0 : -th;
        if (r.below(15) == 0) ang = r.in(185, 355);     // below the surface: negative path
        Layer l(nm, rho, th, f);
        bool withmat = r.coin();
        Material m("M", r.logu(0.1, 20), r.logu(1e-4, 1), "");
        if (withmat) {
            std::vector<std::string> ns; std::vector<double> am; int k = 1 + r.below(3); const char * el[] = {"Fe", "O", "Si", "Ca", "Al2O3"};
            for (int i = 0; i < k; i++) { ns.push_back(el[r.below(5)]); am.push_back(r.in(0.1, 3)); }
            m.setComposition(ns, am);
            l.setMaterial(m);
        }
        double eth = withmat && th <= 0 ? m.getDefaultThickness() : th;
        double e = r.logu(1.1, 100);
        std::string in = "layer '" + nm + "' material=" + (withmat ? show(m.getComposition()) : "-") + " density=" + num(rho) + " thickness=" + num(th) + " funny=" + num(f) + " angle=" + num(ang) + " energy=" + num(e);
        at(in); if (it < 2) sample(in);
        double mu = withmat ? lib.getMassAttenuationCoefficients(m.getComposition(), e)["total"] : lib.getMassAttenuationCoefficients(nm, e)["total"];
        double path = rho * eth / std::sin(std::fabs(ang) * deg);
        double T = -1; std::vector<double> V; std::vector<double> es; int ne = r.below(4); for (int i = 0; i < ne; i++) es.push_back(i ? r.logu(1.1, 100) : e);
        CHECK(l.hasMaterialComposition() == withmat, "hasMaterialComposition: " + in);
        CHECK(l.getThickness() == eth && l.getDensity() == rho, "density/thickness changed: " + in);
        const std::map<std::string, double> comp = withmat ? lib.getComposition(m.getComposition()) : lib.getComposition(nm);
        CHECK(l.getComposition(lib) == comp, "composition: " + in);
        std::string ex = thrown([&] { T = l.getTransmission(e, lib, ang); }), ex2 = thrown([&] { V = l.getTransmission(es, lib, ang); });
        if (path <= 0) { CHECK(ex == "runtime_error", "not rejected: " + in); CHECK(ex2 == "runtime_error", "vector not rejected: " + in); continue; }
        CHECK(ex == "", "rejected: " + in);
        NEAR(T, (1 - f) + f * std::exp(-path * mu), "transmission of " + in);
        CHECK(T >= 0 && T <= 1 + 1e-15, "not a fraction " + num(T) + ": " + in);
        if (es.size()) {
            CHECK(ex2 == "" && V.size() == es.size(), "vector form: " + in);
            for (size_t i = 0; i < V.size() && i < es.size(); i++) NEAR(V[i], l.getTransmission(es[i], lib, ang), "vector[" + num(i) + "] (" + num(es[i]) + ") of " + in);
        }
        if (withmat && r.coin()) {
            l.setMaterial(nm);
            if (rho > 0 && eth > 0) NEAR(l.getTransmission(e, lib), (1 - f) + f * std::exp(-rho * eth * lib.getMassAttenuationCoefficients(nm, e)["total"]), "after switching back to the name: " + in);
        }
        {   // a history of setter calls, against a small model of the layer
            double mr = rho, mt = eth; bool mm = withmat; std::string hist = in; std::string mn = nm; std::map<std::string, double> mc;  if (withmat) mc = m.getComposition(); else { }
            l.setMaterial(nm); mm = false;
            for (int k = 0; k < 6; k++) {
                int op = r.below(4);
                if (op == 0) { mr = r.logu(0.01, 20); l.setDensity(mr); hist += " density(" + num(mr) + ")"; }
                else if (op == 1) { mt = r.logu(1e-5, 1); l.setThickness(mt); hist += " thickness(" + num(mt) + ")"; }
                else if (op == 2) { mn = names[r.below(6)]; l.setMaterial(mn); mm = false; hist += " material('" + mn + "')"; }
                else {
                    Material q("Q", r.coin() && mr > 0 ? mr : r.logu(0.1, 20), r.logu(1e-4, 1), ""); std::vector<std::string> ns(1, r.coin() ? "Cu" : "Si"); std::vector<double> am(1, 1.0); q.setComposition(ns, am);
                    l.setMaterial(q); mm = true; mc = q.getComposition(); if (mt <= 0) mt = q.getDefaultThickness(); if (mr < 0) mr = q.getDefaultDensity();
                    hist += " material(Material density=" + num(q.getDefaultDensity()) + " thickness=" + num(q.getDefaultThickness()) + ")";
                }
                at(hist);
                if (mr != 0) CHECK(l.getDensity() == mr, "density after " + hist + " is " + num(l.getDensity()));
                CHECK(l.getThickness() == mt && l.hasMaterialComposition() == mm, "layer state after " + hist);
                if (mr > 0 && mt > 0) NEAR(l.getTransmission(e, lib), (1 - f) + f * std::exp(-mr * mt * (mm ? lib.getMassAttenuationCoefficients(mc, e)["total"] : lib.getMassAttenuationCoefficients(mn, e)["total"])), "transmission after " + hist);
                CHECK(l.getMassAttenuationCoefficients(e, lib) == lib.getMassAttenuationCoefficients(l.getComposition(lib), e), "attenuation after " + hist);
            }
        }
        double bad = r.coin() ? 0.0 : -r.uni(), d0 = l.getDensity(), t0 = l.getThickness();
        CHECK(thrown([&] { l.setDensity(bad); }) == "invalid_argument" && l.getDensity() == d0, "setDensity accepted " + num(bad));
        CHECK(thrown([&] { l.setThickness(bad); }) == "invalid_argument" && l.getThickness() == t0, "setThickness accepted " + num(bad));
        double good = r.logu(1e-9, 1e3); l.setDensity(good); l.setThickness(good * 2);
        CHECK(l.getDensity() == good && l.getThickness() == good * 2, "setters do not store " + num(good));
    }
    return finish();
}
