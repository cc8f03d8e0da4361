// Builds a synthetic but self-consistent photon cross-section library so that the real Elements class can be
// instantiated in this sandbox (the EPDL97 cross sections file itself is not distributed with the sources).
#ifndef VT_SYNTH_H
#define VT_SYNTH_H
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
namespace synth {
inline std::string dataDir() { const char * e = getenv("FISX_SRC"); return e ? std::string(e) + "/../fisx_data" : "/repo/fisx_data"; }
// z (1..) -> shell -> edge energy, parsed independently
inline std::vector<std::map<std::string, double> > edges(const std::string & dir)
{
    std::ifstream f((dir + "/EADL97_BindingEnergies.dat").c_str());
    std::string l; std::vector<std::string> lab; std::vector<std::map<std::string, double> > out;
    while (std::getline(f, l)) {
        if (l.substr(0, 2) == "#L") { std::istringstream s(l.substr(2)); std::string t; while (s >> t) lab.push_back(t.substr(0, t.find('('))); continue; }
        if (l.size() < 3 || l[0] == '#') continue;
        std::istringstream s(l); double v; std::map<std::string, double> m; size_t i = 0;
        while (s >> v) { if (i > 0 && i < lab.size()) m[lab[i]] = v; i++; }
        if (m.size()) out.push_back(m);
    }
    return out;
}
inline const char ** shells() { static const char * s[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"}; return s; }
// writes EPDL97_CrossSections.dat into out and links everything else
inline void make(const std::string & dir, const std::string & out)
{
    mkdir(out.c_str(), 0755);
    const char * names[] = {"BindingEnergies.dat", "EADL97_BindingEnergies.dat", "EADL97_KShellConstants.dat", "EADL97_KShellNonradiativeRates.dat", "EADL97_KShellRadiativeRates.dat",
        "EADL97_LShellConstants.dat", "EADL97_LShellNonradiativeRates.dat", "EADL97_LShellRadiativeRates.dat", "EADL97_MShellConstants.dat", "EADL97_MShellNonradiativeRates.dat",
        "EADL97_MShellRadiativeRates.dat", "KShellConstants.dat", "KShellRates.dat", "LShellConstants.dat", "LShellRates.dat", "MShellConstants.dat", "MShellRates.dat", "XCOM_CrossSections.dat"};
    for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
        char * rp = realpath((dir + "/" + names[i]).c_str(), 0);
        if (rp) { if (symlink(rp, (out + "/" + names[i]).c_str())) {} free(rp); }
    }
    std::vector<std::map<std::string, double> > e = edges(dir);
    std::ofstream f((out + "/EPDL97_CrossSections.dat").c_str());
    f << "#F EPDL97_CrossSections.dat\n\n";
    f << std::scientific << std::setprecision(8);
    for (size_t z = 1; z <= 100; z++) {
        std::map<std::string, double> & m = e[z - 1];
        std::set<double> grid;
        for (double x = 0.1; x < 210; x *= 1.35) grid.insert(x);
        std::set<double> ed;
        for (int s = 0; s < 9; s++) if (m[shells()[s]] > 0.0) { ed.insert(m[shells()[s]]); }
        f << "#S " << z << " Z" << z << "\n#N 15\n#L PhotonEnergy[keV]  Rayleigh(coherent)[cm2/g]  Compton(incoherent)[cm2/g]  CoherentPlusIncoherent[cm2/g]  Photoelectric[cm2/g]  PairProduction[cm2/g]  TotalCrossSection[cm2/g]"
             "  K[cm2/g]  L1[cm2/g]  L2[cm2/g]  L3[cm2/g]  M1[cm2/g]  M2[cm2/g]  M3[cm2/g]  M4[cm2/g]  M5[cm2/g]  AllOther[cm2/g]\n";
        std::vector<std::pair<double, int> > rows;        // energy, 1 = above the edge
        for (std::set<double>::iterator g = grid.begin(); g != grid.end(); ++g) if (!ed.count(*g)) rows.push_back(std::make_pair(*g, 1));
        for (std::set<double>::iterator g = ed.begin(); g != ed.end(); ++g) { rows.push_back(std::make_pair(*g, 0)); rows.push_back(std::make_pair(*g, 1)); }
        std::sort(rows.begin(), rows.end());
        for (size_t r = 0; r < rows.size(); r++) {
            double x = rows[r].first, coh = 0.3 * z * std::pow(x + 1, -1.2), inc = 0.12 + 0.05 * x / (x + 10.) + 0.0005 * z, part[10], ph = 0;
            for (int s = 0; s < 9; s++) {
                double b = m[shells()[s]]; bool on = b > 0.0 && (x > b || (x == b && rows[r].second));
                part[s] = on ? (s == 0 ? 40. : s < 4 ? 8. : 2.) * std::pow((double)z / 20., 1.5) * std::pow(b / x, 2.7) * (1 + 0.1 * s) * 5. : 0.0;
                ph += part[s];
            }
            part[9] = z > 18 ? 0.05 * z * std::pow(x, -2.5) : 0.0; if (z <= 18) ph += z * 0.8 * std::pow(x, -2.9); else ph += part[9];
            f << x << " " << coh << " " << inc << " " << coh + inc << " " << ph << " 0.00000000E+00 " << coh + inc + ph;
            for (int s = 0; s < 10; s++) f << " " << part[s];
            f << "\n";
        }
        f << "\n";
    }
}
}
#endif
