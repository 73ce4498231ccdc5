import json, os
D = 'held on the driven executions only; '
L = {
'C01': ('online monitor of the exact kernels against rational arithmetic', D + 'trusts Python integers/Fractions as reference'),
'C02': ('online monitor: exact check of L.X = X.L = I', D + 'trusts Python integers/Fractions as reference'),
'C03': ('online monitor of the conversions against exact values', D + 'sollya is replaced by an exact stand-in'),
'C04': ('monitored operator/alias/compare histories against exact values', D + 'error bound of one rounding per term'),
'C05': ('online monitor of polynomial products against exact convolution', D + 'error bound from the sum of moduli'),
'C06': ('monitored expressions; impulse responses compared exactly', D + 'entries chosen so that double computations are exact'),
'C07': ('stateful monitor of caches over random query/transform histories', D + 'slycot absent (scipy solver observed); WCPG library replaced by a stand-in'),
'C08': ('online monitor of rational-function algebra against exact arithmetic', D + 'rounding bound from the sum of moduli'),
'C09': ('monitored view-order histories; impulse responses against exact ones', D + 'well-conditioned systems'),
'C10': ('online monitor of exact systems against rational arithmetic, ambient-precision monitor', D + 'dyadic coefficients'),
'C11': ('monitored realizations: exact step-by-step evaluation against the filter', D + 'filters of moderate order and condition'),
'C12': ('stateful monitor over random write histories against a shadow model', D + 'well-conditioned J'),
'C13': ('monitored error-injection runs of the implicit equations', D + 'exact rational step-by-step evaluation as reference'),
'C14': ('generated C under ASan/UBSan with guarded arrays, traces compared with the exact realization', D + 'gcc sanitizers; a fixed set of input traces'),
'C15': ('interpreter of the generated text run against the realization', D + 'one known finding excluded (see known_findings.json)'),
'C16': ('online monitor of names and sum-of-products text, exact re-reading', D + 'FxP package replaced by a stand-in'),
'C17': ('monitored worst-case input runs and search of smaller word-lengths', D + 'WCPG library replaced by a stand-in'),
'C18': ('online monitor of every quantized coefficient against exact rounding', D + 'exact rational rounding as reference'),
'C19': ('monitor comparing sensitivities with perturbed executions', D + 'well-separated poles'),
'C20': ('dense-frequency monitor of designed filters against the template', D + 'frequency grid of finite size, refined at band edges'),
'C21': ('replayed generator histories, contract monitors', D + 'seeds sampled'),
'C22': ('co-simulation of random diagrams with a block-level simulator', D + 'supported diagrams as listed in DESIGN.md'),
'C23': ('monitor re-reading the displays and counts position by position', D + 'FxP package replaced by a stand-in'),
'C24': ('read-back monitor of texts, plots and closeness verdicts against exact differences', D + 'tolerances tested at half and twice their value'),
}
json.dump(L, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.json'), 'w'), indent=1)
