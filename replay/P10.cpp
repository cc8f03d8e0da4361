#include "harness.h"
#include "synthdata.h"
#include "fisx_elements.h"
#include "fisx_detector.h"
using namespace vt; using namespace fisx;
typedef std::map<std::string, std::map<std::string, double> > Esc;
static std::string show(const Esc & e) { std::string s; for (Esc::const_iterator i = e.begin(); i != e.end(); ++i) s += i->first + ":" + vt::show(i->second) + " "; return s; }
int main()
{
    Rng r(seed());
    std::string d = scratch() + "/lib";
    synth::make(synth::dataDir(), d);
    Elements lib(d);
    int N = thorough() ? 300 : 40;
    const double pi = std::acos(-1.0);
    const char * mats[] = {"Si", "Ge", "CdTe", "SiO2"};
    for (int it = 0; it < N; it++) {
        Detector det(mats[r.below(4)], 2.33, 0.05, 1.0);
        CHECK(det.getDiameter() >= 0 && det.getDistance() > 0, "initial geometry invalid");
        double ea = det.getEscapePeakEnergyThreshold(), ei = det.getEscapePeakIntensityThreshold(); int en = det.getEscapePeakNThreshold(); double aa = det.getEscapePeakAlphaIn();
        std::string h;
        for (int s = 0; s < 14; s++) {
            int op = r.below(13); std::string ex; double dia = det.getDiameter(), dis = det.getDistance();
            if (op == 0) { double a = r.in(-1, 3); ex = thrown([&] { det.setActiveArea(a); }); h += " area(" + num(a) + ")"; at(h);
                if (a < 0) CHECK(ex == "invalid_argument" && det.getDiameter() == dia, "negative area:" + h); else { CHECK(ex == "", "area:" + h); NEAR(det.getActiveArea(), a, "active area" + h); NEAR(det.getDiameter() * det.getDiameter() * pi / 4, a, "diameter after area" + h); } }
            else if (op == 1) { double a = r.below(5) ? r.in(-1, 3) : 0.0; ex = thrown([&] { det.setDiameter(a); }); h += " diameter(" + num(a) + ")"; at(h);
                if (a < 0) CHECK(ex == "invalid_argument" && det.getDiameter() == dia, "negative diameter:" + h); else { CHECK(ex == "" && det.getDiameter() == a, "diameter:" + h); NEAR(det.getActiveArea(), pi * a * a / 4, "area of the disc" + h); } }
            else if (op == 2) { double a = r.below(4) ? r.in(-1, 30) : 0.0; ex = thrown([&] { det.setDistance(a); }); h += " distance(" + num(a) + ")"; at(h);
                if (a <= 0) CHECK(ex == "invalid_argument" && det.getDistance() == dis, "distance:" + h); else CHECK(ex == "" && det.getDistance() == a, "distance:" + h); }
            else if (op == 3) { ea = r.logu(0.01, 12); det.setMinimumEscapePeakEnergy(ea); h += " minE(" + num(ea) + ")"; CHECK(det.getEscapePeakEnergyThreshold() == ea, "threshold not stored" + h); }
            else if (op == 4) { ei = r.logu(1e-8, 1e-2); det.setMinimumEscapePeakIntensity(ei); h += " minI(" + num(ei) + ")"; CHECK(det.getEscapePeakIntensityThreshold() == ei, "threshold not stored" + h); }
            else if (op == 5) { en = 1 + r.below(5); det.setMaximumNumberOfEscapePeaks(en); h += " maxN(" + num(en) + ")"; CHECK(det.getEscapePeakNThreshold() == en, "threshold not stored" + h); }
            else if (op == 6) { std::string m = mats[r.below(4)]; det.setMaterial(m); h += " material(" + m + ")"; CHECK(!det.hasMaterialComposition(), "still has a material" + h); }
            else if (op == 7) { Material m("X", 3.0, 0.1, ""); std::vector<std::string> n(1, mats[r.below(4)]); n.push_back("Al"); std::vector<double> a(1, r.in(0.1, 1)); a.push_back(1); m.setComposition(n, a); det.setMaterial(m); h += " material(Material " + vt::show(m.getComposition()) + ")"; CHECK(det.hasMaterialComposition(), "has no material" + h); }
            else {
                static const double es[] = {5.9, 15.0, 30.0, 8.0}; double e = es[r.below(4)]; const char * ls[] = {"", "a", "b"}; std::string l = ls[r.below(3)]; int up = r.below(6) == 0;
                h += " escape(" + num(e) + ",'" + l + "'," + num(up) + ")"; at(h);
                Esc got = det.getEscape(e, lib, l, up), want = lib.getEscape(det.getComposition(lib), e, ea, ei, en, aa, 0);
                CHECK(got == want, "escape differs from the direct computation: got " + show(got) + " expected " + show(want) + " after" + h);
            }
        }
        if (it < 2) sample(h);
    }
    return finish();
}
