"""Elements as the other classes see it: deterministic functions of the library and the arguments."""
from dsl import *
NOTE = 'body verified separately or not at all; callers only rely on it being a deterministic function of its inputs (const member function, no mutable state)'
def pure(qual, sig, name, **kw):
    return Contract(qual, sig=sig, pure=True, may_throw=True, trusted=NOTE, name=name, **kw)
MU_MAP_E = pure('fisx::Elements::getMassAttenuationCoefficients', 'std::map<std::string, double> (const std::map<std::string, double> &, const double &, const int &) const', 'Elements::mu(composition,energy)')
MU_NAME_E = pure('fisx::Elements::getMassAttenuationCoefficients', 'std::map<std::string, double> (std::string, double) const', 'Elements::mu(name,energy)')
MU_MAP_V = pure('fisx::Elements::getMassAttenuationCoefficients', 'std::map<std::string, std::vector<double>> (const std::map<std::string, double> &, const std::vector<double> &, const int &) const', 'Elements::mu(composition,energies)')
MU_NAME_V = pure('fisx::Elements::getMassAttenuationCoefficients', 'std::map<std::string, std::vector<double>> (const std::string &, const std::vector<double> &) const', 'Elements::mu(name,energies)')
COMP_NAME = pure('fisx::Elements::getComposition', 'std::map<std::string, double> (const std::string &, const std::vector<Material> &) const', 'Elements::getComposition(name,materials)')
COMP_MAP = pure('fisx::Elements::getComposition', 'std::map<std::string, double> (const std::map<std::string, double> &, const std::vector<Material> &) const', 'Elements::getComposition(map,materials)')
COMP_NAME1 = pure('fisx::Elements::getComposition', 'std::map<std::string, double> (const std::string &) const', 'Elements::getComposition(name)')
ESCAPE = pure('fisx::Elements::getEscape', None, 'Elements::getEscape')
