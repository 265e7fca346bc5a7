"""What the proofs rest on without proving it: written into every evidence file."""
import os

TOOLS = [
    'Go compiler and runtime implement the language semantics used here (Go 1.27.3, amd64)',
    'golang.org/x/tools/go/ssa translates the source into SSA faithfully; govc/vc executes SSA symbolically (written for this task, unverified)',
    'z3 5.3 / z3 4.8.12 / cvc5 1.1.2: an unsat answer is believed (one suffices; the thorough tier asks a second solver)',
    'machine integers are treated as mathematical integers; every arithmetic result outside the range of its type is a failed safety obligation unless wrap-around is stated',
]


def base(ext):
    return TOOLS + ['assumed contract of %s' % e for e in ext]


REAL = [
    'functions in floating-point mode "real" are proved over the real numbers: rounding, overflow and NaN from arithmetic on finite numbers are outside these obligations',
    'elementary functions (log, exp, pow, sin, cos, tan, atan, sqrt) are constrained by schemas that hold for all reals (govc/vc/reals.py) and, on closed terms, by 60-digit interval enclosures computed with mpmath',
    'near(a, b) is decided on normal forms (govc/vc/field.py): the two expressions are the same quotient of polynomials once constants that differ by less than 1e-12 relatively are identified',
]


def assumptions(prop):
    a = ['proofs are modular: a caller is checked against the contracts of its callees; each contract clause is discharged by the checks of the properties it is tagged with',
         'memory: a read of a finite stream returns its bytes and then io.EOF (the reader itself does not fail or block); allocation of the sizes bounded by the contracts succeeds']
    if prop in ('C12', 'C14', 'C16', 'C17', 'C19'):
        a += REAL
    if prop == 'C12':
        a.append('functions in floating-point mode "fp" use IEEE 754 binary64 with round-to-nearest, decided by cvc5 and z3; no fused multiply-add (amd64)')
    if prop in ('C16', 'C17'):
        a.append('a function value passed as argument (colour function, compression) is a pure function of its arguments')
        a.append('conversion of a float outside the integer type gives an arbitrary value of the type; NaN gives 0 for types below 32 bits and the minimum for wider signed ones (amd64)')
    if prop in ('C02', 'C04', 'C13', 'C14', 'C18', 'C19'):
        a.append('package-level variables hold what package initialisation stored; writes to them elsewhere are obligations of C18')
    return a


def bounded(prop):
    return []


def known(root, prop):
    out = []
    p = os.path.join(root, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % prop):
                out.append(ln.split(' ', 2)[2])
    return out
