"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (one place for the texts of both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': observe} if observe else {}))))
    P[-1]['_note'] = note


POT = ['primpy/potentials.py']
EQ = ['primpy/time/inflation.py', 'primpy/efolds/inflation.py', 'primpy/equations.py']

prop('P01', 'A potential\'s reported derivatives are the derivatives of that potential',
     'Every inflationary potential evaluates to its documented shape, and the first, second, third and fourth derivative it '
     'reports at a field value are the true derivatives of that shape there, for every choice of its parameters and amplitude. '
     'This includes the potentials with an added feature, and the features themselves. On an array of '
     'field values they act element by element and leave the array unchanged.',
     ['inputs', 'configurations'],
     'every potential class, every admissible parameter set, every field value in the domain (real-valued, no bound)',
     'The tests compare a few derivatives with finite differences at a handful of points and parameter values for some of '
     'the classes, which cannot see a term that is small or vanishes there, and they do not look at the fourth derivative of a '
     'potential with a feature at all.',
     POT, [('V, dV, d2V, d3V, d4V of each class', 'primpy/potentials.py'), ('FeaturePotential product rule', 'primpy/potentials.py'),
           ('GaussianDip, TanhStep', 'primpy/potentials.py')],
     'Each derivative is proved equal to the symbolic derivative of the code executed for the next lower one.')
prop('P02', 'Inverting a potential returns the field value with that energy',
     'For every potential and every energy between zero and the potential\'s maximum or plateau, the inverse returns a field '
     'value on the side inflation rolls down on, at which the potential has exactly that energy. Conversely, inverting the '
     'energy of a field value on that side returns this field value.',
     ['inputs', 'configurations'], 'every potential class, admissible parameters, amplitudes and energies in the open range',
     'The tests invert a few energies at default parameters; a wrong amplitude power or a wrong branch is invisible when '
     'the amplitude is 1 or for even powers.',
     POT, [('inv_V of each class', 'primpy/potentials.py')],
     'Both compositions are proved to be the identity. Known finding: the potentials with a feature inherit the inverse of '
     'the featureless potential.')
prop('P03', 'Slow-roll parameters follow from the potential',
     'The first potential slow-roll parameter equals half the squared logarithmic slope of the potential and each further one '
     'equals the logarithmic slow-roll rate of change of the one before, for every potential, parameter set and field value. '
     'The approximate Hubble-flow parameters derived from them satisfy the exact equations of motion up to the order to which '
     'they are expanded.',
     ['inputs', 'configurations'], 'every potential class, parameters and field values where the potential is positive; '
     'for the expansion, all values of the potential slow-roll parameters',
     'Tests check signs and magnitudes at few points; an error in a higher-order term is numerically tiny in slow roll.',
     POT, [('get_epsilon_1V … get_epsilon_4V', 'primpy/potentials.py'), ('get_epsilon_1 … get_epsilon_4', 'primpy/potentials.py')],
     'Proved from the executed code; the expansion is decided order by order in a formal smallness parameter. Known finding: '
     'the potentials with a feature inherit the closed forms of the featureless potential.')
prop('P04', 'Slow-roll conversions between field, e-folds, tilt, ratio and amplitude agree',
     'For every potential, the field at the end of inflation has unit first slow-roll parameter, the e-fold count of a field '
     'value is the slow-roll integral ending there, and converting e-folds back to a field value inverts it. The analytic '
     'relations for spectral tilt and tensor-to-scalar ratio are inverse to each other and to slow-roll order consistent with '
     'the potential, and an amplitude of the primordial spectrum translates to the potential amplitude which reproduces it at '
     'the requested field value or e-fold count. Contradictory or impossible requests are rejected.',
     ['inputs', 'configurations'], 'every potential class, admissible parameters, field values, e-folds, tilts, ratios, amplitudes',
     'Tests sample default parameters at N about 60 with loose tolerances.',
     POT, [('phi_end, sr_phi2N, sr_N2phi, sr_Nstar2ns, sr_ns2Nstar, sr_Nstar2r, sr_r2Nstar, sr_As2Lambda, constructor', 'primpy/potentials.py')],
     'Proved from the executed code; tabulated inversions (interp1d, root_scalar) are decided against the contract of the scipy call.')
P[-1]['statement'] = (
    'For every potential, the field at the end of inflation has unit first slow-roll parameter, the e-fold count of a field value '
    'is the slow-roll integral ending there, and converting e-folds back to a field value inverts it. The relations for spectral '
    'tilt and tensor-to-scalar ratio invert each other and agree with the potential to slow-roll order. An amplitude of the '
    'primordial spectrum translates to the potential amplitude reproducing it, and contradictory requests are rejected.')
prop('P05', 'The background equations are the Friedmann and Klein-Gordon equations',
     'In flat, open and closed universes, with time or e-folds as independent variable, the rates of change of field, velocity, '
     'scale factor, time and conformal time are those of general relativity with a scalar field. The higher derivatives of the '
     'Hubble parameter and of the field that can be requested are the derivatives of the lower ones along that motion.',
     ['inputs', 'configurations'], 'every potential (uninterpreted function), every state with positive squared Hubble parameter, all '
     'three curvatures, both independent variables, with and without tracking of time and conformal time',
     'Tests integrate a few trajectories in slow roll where curvature terms and higher derivatives are negligible.',
     EQ, [('InflationEquationsT.__call__, get_*', 'primpy/time/inflation.py'), ('InflationEquationsN.__call__, get_*', 'primpy/efolds/inflation.py')],
     'Proved for an arbitrary potential: every derivative is compared with the chain-rule derivative of the executed lower one.')
prop('P06', 'Hubble-flow and field-acceleration parameters are the derivatives defining them',
     'The Hubble-flow parameters (both conventions) equal the successive logarithmic, or in the other convention plain '
     'normalised, derivatives of the Hubble parameter, and the field-acceleration parameters equal the second, third and fourth '
     'time derivatives of the field in units of the Hubble rate and the velocity, whichever independent variable is used.',
     ['inputs', 'configurations'], 'all values of the Hubble parameter, field velocity and their derivatives',
     'Tests compare along slow-roll trajectories where these parameters are tiny, with loose tolerances.',
     EQ, [('get_epsilon_1H/2H/3H, get_delta_1/2/3', 'primpy/time/inflation.py, primpy/efolds/inflation.py')],
     'Proved for arbitrary values by the chain rule on the executed code.')
prop('P07', 'The time and e-fold formulations describe the same universe',
     'A state of the universe handed to the formulation in time and, converted, to the formulation in e-folds yields the same '
     'Hubble parameter, equation of state, acceleration criterion, Hubble-flow and field-acceleration parameters, and derivatives '
     'related by the chain rule. The acceleration criterion is positive exactly when the scale factor accelerates, which is when '
     'the equation of state is below minus one third.',
     ['inputs', 'configurations'], 'every potential (uninterpreted), every state, all three curvatures',
     'Tests compare a few integrated trajectories of both formulations.',
     EQ, [('getters and w/inflating of both classes', 'primpy/time/inflation.py, primpy/efolds/inflation.py')],
     'Relational proof: both implementations are executed on the same arbitrary state.')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more_props.py')).read()) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more_props.py')) else None


MORE = dict(
    P01='At the very minimum of a power of the field, where higher derivatives need not exist, value, slope and curvature are meant.',
    P09='The mode a mode-exit event is about is part of its name.',
    P03='All act on arrays of field values element by element, leaving them unchanged.',
    P04='Arrays are converted element by element and left unchanged (where a conversion accepts arrays).',
    P05='Whole trajectories and arrays are evaluated point by point, and the given states are left unchanged.',
    P06='Arrays are evaluated element by element and left unchanged.',
    P07='Whole trajectories are evaluated point by point and left unchanged.',
    P12='The solved background itself (field, Hubble parameter, e-folds as integrated) is left unchanged.',
    P14='The solved background and the given wavenumbers are left unchanged.',
    P15='Arrays of e-folds are evaluated element by element and left unchanged.',
    P16='The background is left unchanged.',
    P17='The background is left unchanged.',
    P18='Background, wavenumbers and initial values are left unchanged.',
)
for _p in P:
    if _p['id'] in MORE:
        _p['statement'] += ' ' + MORE[_p['id']]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k != '_note'}) + '\n')
    na = [x[0] for x in NA]
    checks = [dict(property=p['id'], quick_cmd='./check.sh %s --tier quick' % p['id'],
                   thorough_cmd='./check.sh %s --tier thorough' % p['id'],
                   technique='contract-based deductive verification of the real Python code (symbolic execution into proof '
                             'obligations, exact normaliser + z3), contracts replayed under CPython',
                   level='proof', level_note=p['_note'] + ' Floats are treated as exact reals; numpy/scipy calls by their '
                   'contracts; the obligation generator and z3 are trusted.')
              for p in P if p['id'] not in na]
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
             not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes='No hooks in /repo. /verif/known_findings.txt lists known findings and repaired defects. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
