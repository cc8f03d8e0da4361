I = ['inputs']; H = ['inputs', 'histories']
prop('P07', 'Material compositions are normalised, validated and atomic',
 'After a composition is given to a material, the stored mass fractions are positive, sum to one and are proportional to the total amount given for each name (amounts of a repeated name add up), with exactly the given names present. '
 'Inputs of different length or with an amount that is not positive are rejected, and so are an empty name, a non-positive default density or thickness and renaming an initialised material; a rejected call leaves the material unchanged.',
 I, 'every list of names and amounts (any length, names in any order and repeated, any amounts) and every map of amounts', 
 'The tests use a handful of two-component materials; normalisation, repeated names and rejection at an arbitrary position are statements about every list.',
 ['src/fisx_material.cpp', 'src/fisx_material.h'],
 [('Material::setComposition', 'src/fisx_material.cpp'), ('Material::initialize, Material::setName', 'src/fisx_material.cpp')])
prop('P09', 'Layer transmission follows the attenuation law and is a fraction',
 'The transmission of a layer at an energy and incidence angle equals (1-f) + f*exp(-density*thickness*mu/|sin angle|), where f is the layer\'s covered fraction and mu the total mass attenuation coefficient of its material (or named material), also entry by entry for a list of energies, and it lies in [0,1] whenever f does and mu is not negative. '
 'A non-positive mass path is rejected; setting a material keeps a positive density and thickness already given to the layer, and non-positive values given to the density or thickness setters are rejected without effect.',
 I, 'every layer (density, thickness, covered fraction, named or explicit material), energy or list of energies, and angle',
 'The tests evaluate one layer at a few energies; the law, its sign handling for negative angles and the equality of scalar and list forms are claims over all angles, energies and materials.',
 ['src/fisx_layer.cpp', 'src/fisx_layer.h'], [('Layer::getTransmission', 'src/fisx_layer.cpp'), ('Layer::setMaterial, setDensity, setThickness', 'src/fisx_layer.cpp')],
 note='The mass attenuation coefficients enter as an uninterpreted function of the library, composition and energy.')
prop('P10', 'Detector geometry and escape results always match current settings',
 'The active area of a detector is pi*(d/2)^2 for its diameter d, setting an area sets the diameter of that area, and a distance that is not positive and a diameter or area that is negative are rejected without effect. '
 'Escape peaks returned by a detector equal those computed for its current material, escape angle, intensity cut-off, thickness setting and peak limit: repeating a query gives the same answer and no answer survives a change of material or of an escape setting.',
 H, 'every sequence of setter calls and escape queries on a detector',
 'The tests never change a detector setting after the first query, so they cannot see stale escape results; this is a claim about every history of calls.',
 ['src/fisx_detector.cpp', 'src/fisx_detector.h'], [('Detector::getEscape and escapeCache', 'src/fisx_detector.cpp'), ('Detector setters', 'src/fisx_detector.cpp')],
 note='The escape computation of the elements library enters as an uninterpreted pure function; one fixed library per detector is assumed.')
prop('P11', 'A beam is a sorted, normalised rearrangement of the rays given',
 'After a beam is given (as lists, as arrays with missing arrays allowed, or as a single energy) it holds exactly one ray per given energy, sorted by energy. Each ray carries the energy, characteristic flag and divergence that were given for it (a missing list means weight 1, flag 1, divergence 0; a single value applies to every ray), and its weight is the given weight divided by the total, so the weights sum to one whenever the total is positive. '
 'The table form of the beam lists energies, weights, flags and divergences ray by ray.',
 I, 'every list of energies in any order (ties included), weights with any total, absent, single-valued or complete optional lists, and NULL arrays',
 'The tests check one beam of a few energies; that no ray is lost, mispaired or left unnormalised is a statement about every list and order.',
 ['src/fisx_beam.cpp', 'src/fisx_beam.h'], [('Beam::setBeam (three overloads)', 'src/fisx_beam.cpp'), ('Beam::normalizeBeam', 'src/fisx_beam.cpp'), ('Beam::getBeamAsDoubleVectors', 'src/fisx_beam.cpp')],
 note='std::sort is modelled as a permutation that sorts by the class\'s operator<. Optional lists are assumed absent, single-valued or at least as long as the energies.')
prop('P12', 'Transmission tables interpolate linearly and reject bad tables whole',
 'The transmission of a table at an energy is the tabulated value at a tabulated energy, the straight-line value between the two neighbouring energies otherwise, and the first (last) value below (above) the table; a table not yet filled transmits everything, and a list query gives the single-query value for each energy. '
 'A table given with a negative energy or transmission, lists of different lengths or descending energies, or an attempt to rename or re-comment a labelled table is rejected and leaves table, name and comment unchanged; an accepted table replaces the previous one entirely, the second of two equal energies being tabulated 0.000001 above the first.',
 I, 'every table given as a map or as two lists, every query energy, and every sequence of accepted and rejected tables',
 'The tests evaluate one table at a few energies; all-or-nothing rejection and the interpolation between arbitrary neighbours are claims about every table and every energy.',
 ['src/fisx_transmissiontable.cpp', 'src/fisx_transmissiontable.h'], [('TransmissionTable::setTransmissionTable', 'src/fisx_transmissiontable.cpp'), ('TransmissionTable::getTransmission', 'src/fisx_transmissiontable.cpp')])
prop('P03', 'Energy lookups bracket the energy, whatever was looked up before',
 'Looking up an energy in an ascending table of energies (EPDL97 and Element getInterpolationIndices, used by every tabulated cross section) returns two neighbouring entries of that table, the upper one being the first entry that is not below the energy: lower entry < energy <= upper entry, also at tabulated and repeated (absorption edge) energies. Below the table the first two entries are returned, above it the last two, and for a table of one energy that entry twice. '
 'The answer depends only on the table and the energy, never on earlier lookups in the same or other tables, and no entry outside the table is read.',
 H, 'every ascending table of any length, every energy, and every sequence of earlier lookups in tables of other lengths',
 'The lookup keeps its last position in a static variable and searches from there; the tests cannot sample the sequences of lookups over tables of different length.',
 ['src/fisx_epdl97.cpp', 'src/fisx_element.cpp'], [('EPDL97::getInterpolationIndices', 'src/fisx_epdl97.cpp'), ('Element::getInterpolationIndices', 'src/fisx_element.cpp')],
 note='std::lower_bound is modelled by its standard specification.')
prop('P04', 'Shell transition ratios are normalised and vacancies are transferred accordingly',
 'A shell is one of K, L1..L3, M1..M5 and starts with a zero fluorescence yield (omega) and zero Coster-Kronig yields fij to its higher subshells; unknown names and unknown constants are rejected, and given constants replace only the ones named. '
 'Radiative rates given to a shell (as lists, a map or C arrays, not negative) replace the earlier ones: every transition with a positive rate has as ratio its share of the sum of all rates (TOTAL excluded), so the ratios sum to one; labels that do not belong to the shell are rejected. '
 'Nonradiative rates are split into one group per Coster-Kronig yield fij (positive transitions starting with "Si-Sj", ratios relative to the group total) and the Auger transitions (all other positive ones, relative to the given TOTAL, or the sum of the rates if none is given, less the group totals). '
 'The vacancies transferred to a subshell are the line ratio times omega, the Auger ratios of the transitions that fill from or eject from it times the Auger yield, and those of each group times fij; a destination that is not two characters or yields adding up to more than 1.0001 are rejected.',
 I, 'every shell, every list of labels (any length, repeated, mixed case) and rates, every history of setter calls, every destination',
 'The tests check one library file through its totals; grouping by label, normalisation and replacement of earlier rates must hold for every set of labels and every order of calls.',
 ['src/fisx_shell.cpp', 'src/fisx_shell.h'], [('Shell::_updateFluorescenceRatios, _updateNonradiativeRatios', 'src/fisx_shell.cpp'), ('Shell::setRadiativeTransitions, setNonradiativeTransitions', 'src/fisx_shell.cpp'), ('Shell::getDirectVacancyTransferRatios', 'src/fisx_shell.cpp')],
 note='Reading a digit with std::istringstream is assumed (StringToInteger). Transition labels given to the vacancy transfer are assumed to have at least two characters.')
