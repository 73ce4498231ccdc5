#!/usr/bin/env python3
"""writes known_findings.json: the findings recorded (not repaired), and the defects repaired"""
import json
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of each repair, keyed by a part of the subject of its commit
P = [('accept single and half precision', 'C01'), ('with single-precision matrices', 'C07'), ('write any real matrix', 'C03'), ('integer and single-precision constants', 'C16'), ('over spliced lines', 'C14'), ('inverse of J is computed', 'C12'), ('set in a SIF have the size', 'C12'), ('integer or boolean matrices', 'C06'), ('unsigned or boolean entries', 'C12'), ('default values of its file', 'C22'), ('algebraic loop', 'C22'), ('does not end the comment of the generated C', 'C14'), ('stays in the comment of the LaTeX', 'C15'), ('exact transfer function of order 0', 'C10'), ('AMPL data of a realization with a single', 'C17'), ('exact sum, difference and product refuse complex', 'C01'), ('a transfer function of order 0', 'C09'), ('a state-space without state', 'C06'), ('exact transfer function of order 0', 'C10'), ('not proposed for a simple gain', 'C11'), ('the rounded simulation gives', 'C10'), ('comments of an algorithm', 'C15'), ('lists of indexes', 'C06'), ('the order of a dTFmp', 'C10'), ('given to SIF.dZ', 'C23'), ('for small gains', 'C09'), ('first coefficients of the numerator', 'C09'), ('Bode plot', 'C24'), ('exact product of non-square', 'C01'), ('error messages of the exact', 'C01'), ('numpy matrix to mpmath is exact', 'C01'), ('import sollya where', 'C03'),
     ('polynomials with a single root', 'C05'), ('exact difference of dSSmp', 'C10'), ('to_dTFmp leaves', 'C10'), ('initial state', 'C10'),
     ('simulate(exact=False)', 'C10'), ('coefficients of a dTFmp', 'C10'), ('dTFmp.to_dSSmp', 'C10'), ('methods of dTFmp', 'C10'),
     ('series connection', 'C06'), ('similarity', 'C07'), ('H2-norm', 'C07'), ('Lyapunov', 'C07'), ('simplify', 'C06'), ('random_dSS', 'C21'), ('polynomials in z^-1', 'C08'),
     ('unsupported operand', 'C08'), ('dTF with numerator', 'C08'), ('random transfer functions', 'C21'), ('valid seed', 'C21'), ('without seed', 'C21'),
     ('onlyEven', 'C21'), ('W1 goes beyond', 'C21'), ('ftype=', 'C21'), ('stop band at 0dB', 'C20'), ('plot of a transfer', 'C20'), ('zone of a stop band', 'C20'), ('margin of a gain', 'C20'), ('bandstop', 'C20'), ('always floats', 'C12'), ('Z setter', 'C12'),
     ('all the systems deduced', 'C12'), ('dJ', 'C12'), ('generated again', 'C14'), ('numpy >= 1.24', 'C18'), ('dZ matrix', 'C18'), ('complex poles', 'C19'), ('sensitivities of the poles', 'C19'),
     ('generate_inputs', 'C13'), ('AMPL parameters', 'C17'), ('call the existing methods', 'C17'), ('AMPL data', 'C17'), ('optimalWL satisfy', 'C17'),
     ('only one state', 'C14'), ('runCdouble', 'C14'), ('surnames of the states', 'C15'), ('display of a SoP', 'C16'), ('wrapping of a SoP', 'C16'), ('generateNames', 'C16'),
     ('feed several times', 'C22'), ('Simulink', 'C22'), ('several outputs used', 'C22'), ('new identifiers', 'C22'), ('missing import', 'C22'), ('ordered by port', 'C22'),
     ('delays longer', 'C22'), ('rhoDFII', 'C11'), ('LGS and LCW', 'C11'),  ('multiple poles', 'C10'), ('simulate_rounded', 'C10'), ('documented relative error', 'C23'), ('dZ follows', 'C23'), ('requires no addition', 'C23'), ('blank line of getZtp', 'C23')]
FINDINGS = json.load(open(os.path.join(V, 'tools', 'findings.json')))
fixed = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '2b2efea..HEAD'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    p = [c for k, c in P if k in s]
    assert p, s
    fixed.append('fixed: property=%s %s %s' % (p[0], h, s[5:]))
json.dump({'findings': FINDINGS, 'fixed': fixed}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(FINDINGS), 'findings,', len(fixed), 'fixed')
