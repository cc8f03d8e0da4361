from dsl import *
import elements_mix as E
OPQ = dict(opaque=['fisx::Elements'])
P = ['P10']
NOTHROW = lambda c: []

def cache_empty(o):
    m = o.escapePeakCache.v
    return forall(Str, lambda k: Not(Select(m.dom, k)))

def direct(d, lib, energy):
    """the escape ratios computed without any cache"""
    comp = View(ite_val(d.hasMaterial, E.COMP_MAP.puref(lib, d.material.composition, view(default_value(('vec', ('struct', 'fisx::Material'))))).v, E.COMP_NAME1.puref(lib, d.materialName).v))
    return E.ESCAPE.puref(lib, comp, energy, d.escapePeakEnergyThreshold, d.escapePeakIntensityThreshold, d.escapePeakNThreshold, d.escapePeakAlphaIn, RealVal(0))

def coherent(d, lib):
    """every cached entry is what the direct computation gives"""
    m = d.escapePeakCache.v
    inner = m.vt
    def body(l, e):
        sub = unfold(wrap(Select(m.val, l), inner))
        return Implies(And(Select(m.dom, l), Select(sub.dom, e)), Select(sub.val, e) == pack(direct(d, lib, e).v))
    return forall2(Str, RealSort(), body)

Contract('fisx::Detector::getEscape', prop=P, opts=OPQ, may_throw=True, modifies=['escapePeakCache'],
    requires=lambda c: [('the cache was filled with this elements library', coherent(c.this, c.arg(1)))],
    ensures=lambda c: [('the result is the direct computation', c.result.packed() == direct(c.this, c.arg(1), c.arg(0)).packed()),
                       ('the cache stays coherent', coherent(c.this, c.arg(1)))],
    on_throw=lambda c: [('the cache stays coherent', coherent(c.this, c.arg(1)))])

def clearing(q, field, **kw):
    Contract(q, prop=P, modifies=[field, 'escapePeakCache'], throws=NOTHROW,
        ensures=lambda c: [('stored', getattr(c.this, field) == c.arg(0)), ('escape cache emptied', cache_empty(c.this))], **kw)
clearing('fisx::Detector::setMinimumEscapePeakEnergy', 'escapePeakEnergyThreshold')
clearing('fisx::Detector::setMinimumEscapePeakIntensity', 'escapePeakIntensityThreshold')
clearing('fisx::Detector::setMaximumNumberOfEscapePeaks', 'escapePeakNThreshold')
Contract('fisx::Detector::clearEscapePeakCache', prop=P, modifies=['escapePeakCache'], throws=NOTHROW, ensures=lambda c: [('escape cache emptied', cache_empty(c.this))])
Contract('fisx::Detector::setMaterial', sig='void (const std::string &)', prop=P, modifies=['materialName', 'hasMaterial', 'escapePeakCache'], throws=NOTHROW,
    ensures=lambda c: [('name stored', c.this.materialName == c.arg(0)), ('composition now comes from the name', Not(c.this.hasMaterial)), ('escape cache emptied', cache_empty(c.this))])
Contract('fisx::Detector::setMaterial', sig='void (const Material &)', prop=P, modifies=['material', 'hasMaterial', 'density', 'thickness', 'escapePeakCache'], throws=NOTHROW,
    ensures=lambda c: [('material stored', same(c.this.material, c.arg(0))), ('composition now comes from the material', c.this.hasMaterial), ('escape cache emptied', cache_empty(c.this))])

Contract('fisx::Detector::setDiameter', prop=P, modifies=['diameter'], exc_modifies=[], throws=lambda c: [('negative', INVALID, c.arg(0) < 0)], ensures=lambda c: [('stored', c.this.diameter == c.arg(0))])
Contract('fisx::Detector::setDistance', prop=P, modifies=['distance'], exc_modifies=[], throws=lambda c: [('not positive', INVALID, c.arg(0) <= 0)], ensures=lambda c: [('stored', c.this.distance == c.arg(0))])
Contract('fisx::Detector::setActiveArea', prop=P, modifies=['diameter'], exc_modifies=[], throws=lambda c: [('negative', INVALID, c.arg(0) < 0)],
    ensures=lambda c: [('disc of that area', And(c.this.diameter >= 0, PI * c.this.diameter * c.this.diameter == 4 * c.arg(0)))])
Contract('fisx::Detector::getActiveArea', prop=P, throws=NOTHROW, ensures=lambda c: [('area of the disc', 4 * c.result == PI * (c.this.diameter * c.this.diameter))])
getter('fisx::Detector::getDiameter', 'diameter', P)
getter('fisx::Detector::getDistance', 'distance', P)
Contract('fisx::Detector::Detector', sig='void (const std::string &, const double &, const double &, const double &)', prop=P, throws=NOTHROW,
    ensures=lambda c: [('arguments stored', And(c.this.name == c.arg(0), c.this.materialName == c.arg(0), c.this.density == c.arg(1), c.this.thickness == c.arg(2), c.this.funnyFactor == c.arg(3), Not(c.this.hasMaterial))),
                       ('geometry is valid', And(c.this.diameter >= 0, c.this.distance > 0)), ('escape cache empty', cache_empty(c.this))])
