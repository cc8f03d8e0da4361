#include "harness.h"
#include "fisx_epdl97.h"
#include "fisx_element.h"
using namespace vt; using namespace fisx;
// first table entry that is not below x: the upper end of the bracket (clamped to the table)
static std::pair<long, long> bracket(const std::vector<double> & v, double x)
{
    if (v.size() < 2) return std::make_pair(0L, 0L);
    long i = 0; while (i < (long) v.size() && v[i] < x) i++;
    if (i == 0) i = 1; if (i >= (long) v.size()) i = v.size() - 1;
    return std::make_pair(i - 1, i);
}
int main()
{
    Rng r(seed()); EPDL97 e; Element el("Fe", 26);
    int N = thorough() ? 30000 : 2500;
    for (int it = 0; it < N; it++) {
        // a history: queries over several tables of different length
        std::vector<std::vector<double> > t(1 + r.below(4));
        for (size_t k = 0; k < t.size(); k++) {
            int n = r.below(8) == 0 ? 1 : r.below(3) == 0 ? 2 + r.below(200) : 2 + r.below(12); double x = r.in(0, 2);
            for (int i = 0; i < n; i++) { t[k].push_back(x); if (r.below(6)) x += r.in(0.001, 1); }
        }
        std::string hist;
        for (int q = 0; q < 12; q++) {
            std::vector<double> & v = t[r.below(t.size())]; double x;
            switch (r.below(6)) { case 0: x = v[r.below(v.size())]; break; case 1: x = v[0] - r.below(2) * r.uni(); break; case 2: x = v.back() + r.below(2) * r.uni(); break; default: x = r.in(v[0], v.back()); }
            hist += " lookup(" + num(x) + " in " + (v.size() > 14 ? std::to_string(v.size()) + " energies" : show(v)) + ")";
            at(hist); if (it < 2) sample(hist);
            std::pair<long, long> w = bracket(v, x), a = e.getInterpolationIndices(v, x), b = el.getInterpolationIndices(v, x);
            CHECK(a == w, "EPDL97 bracket (" + std::to_string(a.first) + "," + std::to_string(a.second) + ") expected (" + std::to_string(w.first) + "," + std::to_string(w.second) + ") after" + hist);
            CHECK(b == w, "Element bracket (" + std::to_string(b.first) + "," + std::to_string(b.second) + ") expected (" + std::to_string(w.first) + "," + std::to_string(w.second) + ") for" + hist);
        }
    }
    return finish();
}
