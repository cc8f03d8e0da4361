// Shared helpers of the replay harnesses.  A harness runs the code compiled from /repo/src against
// an independent oracle; it never decides a property, it looks for a concrete input showing a failure.
#ifndef VT_HARNESS_H
#define VT_HARNESS_H
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <stdexcept>
#include <algorithm>
#include <functional>
#include <cstdint>
#include <unistd.h>
namespace vt {
inline long & evals() { static long n = 0; return n; }
inline long & nfails() { static long n = 0; return n; }
inline FILE * out() { static FILE * f = fdopen(dup(1), "w"); return f; }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ULL; }
    int below(int n) { return (int)((next() >> 33) % (uint64_t)n); }
    double uni() { return (double)(next() >> 11) / 9007199254740992.0; }
    double in(double a, double b) { return a + (b - a) * uni(); }
    double logu(double a, double b) { return std::exp(in(std::log(a), std::log(b))); }
    bool coin() { return below(2) == 0; }
};
inline uint64_t seed() { const char * e = getenv("VERIF_SEED"); return e ? strtoull(e, 0, 10) + 1 : 2; }
inline bool thorough() { const char * e = getenv("VERIF_TIER"); return e && std::string(e) == "thorough"; }
inline std::string scratch() { const char * e = getenv("SCRATCH"); return e ? e : "."; }
inline void at(const std::string & s) { fprintf(out(), "AT %s\n", s.c_str()); fflush(out()); }
inline void fail(const std::string & s)
{
    nfails()++;
    if (nfails() <= 60) { fprintf(out(), "FAIL %s\n", s.c_str()); fflush(out()); }
}
inline void sample(const std::string & s) { static int n = 0; if (n++ < 5) { fprintf(out(), "SAMPLE %s\n", s.c_str()); fflush(out()); } }
inline std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
inline std::string show(const std::vector<double> & v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
inline std::string show(const std::vector<std::string> & v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ",'" : "'") + v[i] + "'"; return s + "]"; }
inline std::string show(const std::map<std::string, double> & m) { std::string s = "{"; for (std::map<std::string, double>::const_iterator i = m.begin(); i != m.end(); ++i) s += (s.size() > 1 ? ",'" : "'") + i->first + "':" + num(i->second); return s + "}"; }
// relative comparison
inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-12)
{
    if (a == b) return true;
    if (!(std::isfinite(a) && std::isfinite(b))) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool check(bool ok, const std::string & what) { evals()++; if (!ok) fail(what); return ok; }
// runs f; returns the name of the exception class it threw, or ""
template <class F> std::string thrown(F f)
{
    try { f(); }
    catch (const std::out_of_range &) { return "out_of_range"; }
    catch (const std::invalid_argument &) { return "invalid_argument"; }
    catch (const std::domain_error &) { return "domain_error"; }
    catch (const std::ios_base::failure &) { return "ios_failure"; }
    catch (const std::runtime_error &) { return "runtime_error"; }
    catch (const std::exception &) { return "exception"; }
    catch (...) { return "other"; }
    return "";
}
inline int finish() { fprintf(out(), "EVALS %ld\n", evals()); fflush(out()); return nfails() ? 1 : 0; }
}
// code under test may print to stdout/stderr: silence it
struct VtSilence { VtSilence() { vt::out(); std::cout.setstate(std::ios_base::badbit); std::cerr.setstate(std::ios_base::badbit); } };
static VtSilence vt_silence;
#define CHECK(c, msg) vt::check((c), std::string(msg))
#define NEAR(a, b, msg) do { double va_ = (a), vb_ = (b); vt::check(vt::near(va_, vb_), std::string(msg) + " got " + vt::num(va_) + " expected " + vt::num(vb_)); } while (0)
#endif
