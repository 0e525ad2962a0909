# writes known_findings.json: the genuine defects found, all repaired ("fixed" entries suppress nothing)
import json, subprocess, os
def h(msg):
    out = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
    for l in out.splitlines():
        if msg in l: return l.split()[0]
    raise SystemExit('no commit ' + msg)
F = [
 ('C12', 'addition and subtraction of polynomials', 'Polynomial<2>{1,2,3} + Polynomial<2>{...} dropped or overran the leading coefficients of the operands of different degree'),
 ('C14', 'keep an eigenvalue at the lower end', 'an eigenvalue that coincides with the energy at the lower end of a bisection interval was lost (also C15: eigenvalues(Emin, Emax) with Emin an eigenvalue)'),
 ('C14', 'report every eigenvalue of an inseparable cluster', 'eigenvalues too close to be separated by bisection: only one of the cluster was reported'),
 ('C16', 'check the index range before', 'a request with a negative first index or a last index below the first was answered or searched forever'),
 ('C21', 'derivative of half-range eigenfunctions left of', 'y\' of even and odd half-range eigenfunctions had the wrong sign for x < 0'),
 ('C26', 'derivative in LiouvilleTransformation::y2z', 'y2z used a wrong term for the derivative: z2y(y2z(y)) differed from y wherever (pw)\' != 0 (also C27)'),
 ('C23', 'boundary values in PeriodicMatslise::eigenfunction', 'PeriodicMatslise::eigenfunction(E): boundary values did not satisfy the periodicity condition'),
 ('C30', 'Matscs::propagatePsi against the orientation', 'propagatePsi over a sector against its orientation used the wrong inverse'),
 ('C28', 'refuse Matscs::propagatePsi outside', 'propagatePsi to points outside of the domain was answered'),
 ('C12', 'unary plus of a polynomial', 'unary plus of a polynomial did not compile'),
 ('C11', 'integral of a Legendre projection', 'Legendre::integrate() returned half of the integral over the interval'),

 ('C22', 'search the lowest periodic eigenvalue from below it', 'PeriodicMatslise::eigenvalues(Emin, Emax) with Emin above the lowest eigenvalue reported an energy that is no eigenvalue as index 0'),
 ('C22', 'periodic index ranges may start below zero', 'PeriodicMatslise::eigenvaluesByIndex(-2, 3) returned nothing'),
 ('C22', 'look for the maximum between two periodic eigenvalues', 'a pair of simple eigenvalues was reported as one double eigenvalue (at an energy that is none) when the discriminant has an extremum between the angle bounds, e.g. K = (1 0; 3 1), V = 0, indices 3 and 4'),
 ('C22', 'indices of quasi-periodic eigenvalues when', 'K(0, 1) != 0: eigenvalues were missed and indices wrong, e.g. K = (1 2; 0 1), V = 0'),
 ('C33', 'count the turns of a coupled system', 'the angle of Matscs::propagate was wrong by full turns when the channels are coupled (or not in ascending order), e.g. V = diag(4, 0), and when the potential is not constant over a sector'),
]
out = []
for prop, msg, what in F:
    c = h(msg)
    out.append({'property': prop, 'status': 'fixed', 'commit': c, 'harness': '', 'label': '', 'detail': '',
                'what': 'fixed: property=%s %s %s' % (prop, c, what)})
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'), 'w'), indent=1)
