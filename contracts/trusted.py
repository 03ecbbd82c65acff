"""what the proofs rest on without checking it (reported in every evidence file)"""
TRUSTED_BASE = [
    'pyvc (/verif/pyvc): the instrumenter, the symbolic interpreter and the obligation generator themselves',
    'z3 4.x (python3-vt z3-solver) and cvc5 1.1.2 as the back ends; unsat answers are believed',
    'the specifications in /verif/contracts and the library models in /verif/pyvc/models (contracts assumed for dependencies)',
    'CPython executing the instrumented text: instrumentation rewrites loops, calls, operators and literals of the extracted source mechanically and keeps everything else',
]
ASSUMPTIONS = [
    'integers are mathematical (as in Python); floats are mathematical reals (no rounding, no NaN or infinity)',
    'no MemoryError, RecursionError or KeyboardInterrupt; logging calls have no effect and cannot fail',
    'struct, str/bytes, dict, itertools, collections.OrderedDict behave as documented (models in pyvc/models/base.py, pyvc/containers.py)',
    'UTF-8 encoding is injective, decoding is its inverse, encoded length is at least the text length (uninterpreted otherwise)',
]
