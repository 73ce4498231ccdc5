#!/usr/bin/env python3
"""assembles DESIGN.md from tools/design_head.md, the notes below, the property modules and the planted changes"""
import ast
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)

# oracle (against what), and why it reaches what the tests cannot
NOTES = {
 'C01': ('The result of the kernel is read back as integers mantissa/exponent and compared with Fraction arithmetic on the operands, entry by entry; the working precision and the operands are compared before/after each call.',
         'The tests multiply a few random matrices at one precision; a lost bit needs operands whose exponents differ by more than the precision, halfway bits, rectangular shapes or an ambient precision lower than the data: these are what the generator is biased to.'),
 'C02': ('L.X and X.L are computed in Fraction arithmetic and must be exactly I; near-miss matrices (one entry over the diagonal as small as 2^-3000, a diagonal of 1+2^-1000) must be refused.',
         'The tests look at approximate inverses at one precision.'),
 'C03': ('Each value is followed through every conversion (and chains of them) as a Fraction; narrowing is compared with the correctly rounded double (ties, subnormals, carries).',
         'Halfway cases and narrow working precisions are measure-zero for the tests.'),
 'C04': ('A shadow copy of every object is held as Fractions; every operator result is compared within the rounding of one operation per term; sources are modified afterwards to detect aliasing; comparisons are tried with one altered entry at each position.',
         'Aliasing and near-equality need histories and a pair differing in one entry only.'),
 'C05': ('Exact (Gaussian) rational convolution; error bound = working precision times the sum of moduli of the products, so that cancellations do not excuse wrong coefficients.',
         'Cancelling factors, unequal degrees and omitted indices at each position.'),
 'C06': ('The matrices are dyadic so the double block operations are exact: impulse responses (Fractions, more samples than the total number of states: by Cayley-Hamilton this settles equality of the systems) must be equal to the convolution/sum/selection of the operand responses.',
         'Expressions of several operations, MIMO sizes, unreachable states, near-cancelling systems.'),
 'C07': ('A stateful model holds the current A, B, C, D; at each query of a random history the Gramians are checked in their Lyapunov equation, the H2 norm, DC gain and WCPG against the impulse response of the *current* matrices; the error tolerances follow the condition of the equation; poles on the circle must be refused.',
         'Stale caches are visible only for particular orders of queries and transformations.'),
 'C08': ('Cross-multiplied fractions in exact arithmetic, with the running rounding bound of the convolution.',
         'Different orders on both sides, delays, tiny or nearly cancelling coefficients, numbers on either side, long expressions.'),
 'C09': ('The exact impulse response of what was given to the object is compared with the one of each view, in a random order of queries; predicates are compared with the exact stability (Jury-type) and the sizes.',
         'The order in which lazy views are computed, unequal lengths, delays.'),
 'C10': ('Fractions of the mpf operands; rounded simulations are replayed with an exact model of the documented rounding; mp.prec is compared before and after every call, including the calls that fail.',
         'Precision leaks appear only on failing paths; lost bits only when data is wider than the ambient precision.'),
 'C11': ('Each realization is executed step by step in rational arithmetic from J..S, and compared with the exact impulse response of the filter over more samples than its states; accept rules against the documented ones.',
         'Every structure x option x filter shape product, near-special gammas and Deltas (1 - 2^-40, ...).'),
 'C12': ('A shadow of the nine matrices (last written) is executed in rational arithmetic; after each write of a random history some of the views are compared; other objects built from the same data must not move.',
         'Stale derived systems need write/query/write orders; tiny writes; aliasing.'),
 'C13': ('Step-by-step exact evaluation of the implicit equations with impulses injected in every variable; the quantization difference system against the difference of two exact runs.',
         'Every position of the injected error, SIFs with several intermediate variables.'),
 'C14': ('The generated C is compiled with gcc ASan+UBSan and with clang MSan and called on exactly-sized heap arrays; outputs and states are compared with the exact values within a rigorous running bound of the rounding of the sums; the Python runner is driven through histories (changes of coefficients, other realizations, threads).',
         'Memory errors show up only for particular sizes, in-place updates only for nearly triangular P, coefficients truncated beyond the tolerance of the tests.'),
 'C15': ('An interpreter of the printed text (independent of the generator) executes the lines in order with the values assigned so far, in rational arithmetic.',
         'The tests compare two texts with stored strings; order bugs need P (nearly) triangular, J dense, labels and surnames.'),
 'C16': ('Texts are parsed back, names of families compared pairwise; formats are tried with the extreme operands.',
         'Collisions need particular pairs; wrapping needs particular lengths.'),
 'C17': ('Worst-case inputs of each variable (signs of its impulse response) are built and run: the peak must be under 2^msb and over 2^(msb-1); word-lengths are judged by rounded runs and by the exact error bound; the smaller word-length must violate; the AMPL file is parsed back.',
         'Minimality and thresholds are decided at peaks that are (nearly) powers of two.'),
 'C18': ('Correct rounding of each coefficient on w bits computed in Fractions, both ties accepted; histories on the original and the copies.',
         'Ties, carries to the next power of two, extreme exponents, shared state.'),
 'C19': ('Each coefficient is perturbed: poles of the perturbed systems computed exactly (characteristic polynomial, Newton in 300 bits), impulse responses with a complex step.',
         'Every coefficient of every realization with real/complex/negative poles.'),
 'C20': ('The designed function is evaluated in 200 bits over refined grids of each band; reports of the template against what was given; check_dTF run with a numerical stand-in of the certified Sollya procedure.',
         'Orders of the description, nearly equal gains, edges at Nyquist, sampling frequencies.'),
 'C21': ('Objects are compared bit by bit with their reconstruction after the random state was moved; parameters against the ranges asked for (and their coverage).',
         'Reproducibility needs histories between the two constructions; rare draws.'),
 'C22': ('A random diagram is simulated directly (flat, exact), written as an slx file (with random nesting, ordering, branching) and imported; the realization is executed exactly.',
         'Nested and crossing subsystems, shared signals, many ports.'),
 'C23': ('Shadow copy of the coefficients with their class computed exactly; both displays are parsed back position by position.',
         'Values at the threshold, stale flags after writes.'),
 'C24': ('Pairs with a known difference relative to the tolerance; texts parsed back; figures read back from matplotlib.',
         'A difference in one place only, just above or below the tolerance.'),
}


def consts(path):
    r = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'EXPECT'):
            r[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'WORKLOADS':
            w = []
            for c in n.value.elts:
                k = {x.arg: x.value.value for x in c.keywords if isinstance(x.value, ast.Constant)}
                a = [x.value for x in c.args[2:]]
                q, t = k.get('quick', a[0] if a else None), k.get('thorough', a[1] if a[1:] else None)
                w.append((c.args[0].value, max(q, min(3 * q, t)), t))
            r['WORKLOADS'] = w
    return r


props = [json.loads(l) for l in open('properties.jsonl')]
out = [open('tools/design_head.md').read().rstrip(), '']
out.append('## The properties, one by one\n')
for p in props:
    c = consts('rv/props/%s.py' % p['id'])
    note, why = NOTES[p['id']]
    out.append('### %s — %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('* **Workload**: ' + c['RULE'] + '.')
    out.append('* **Oracle**: ' + note)
    out.append('* **Why beyond the tests**: ' + why)
    out.append('* **Assumptions**: ' + '; '.join(c['ASSUMPTIONS']) + '.')
    out.append('* **Cases** (quick / thorough): ' + ', '.join('%s %s / %s' % w for w in c['WORKLOADS']) + '. Must be observed at least (quick): ' + ', '.join('%s %d' % x for x in c['EXPECT'].items()) + '.')
    seeded = sorted(d for d in glob.glob('seeded/%s-*' % p['id']))
    if seeded:
        out.append('* **Planted changes** (all caught by this check):')
        for d in seeded:
            m = json.load(open(d + '/meta.json'))
            out.append('  * `%s`: %s (needs: %s)' % (os.path.basename(d), m['what_it_breaks'], m['needs']))
    out.append('')
open('DESIGN.md', 'w').write('\n'.join(out))
