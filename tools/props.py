"""Per property: harness budgets in seconds (quick, thorough), level and notes for the manifest and the evidence."""
RULE = ('cases: first a complete enumeration of small operands (every shape up to the stated size over the listed '
        'coefficients, types and operator forms), then seeded random operands (all representations, leading and explicit '
        'zeros, extreme degrees, values at type limits and at the source\'s literals). A case is non-trivial when the '
        'contract\'s precondition holds and its postcondition was compared; distinct by hash of the whole case')
EXACT = 'coefficient arithmetic is exact (no overflow, no rounding), as the property states'
LIB = 'the contracts in contracts/prelude.rs of Vec, slices, BTreeMap, Option, eager iterators and the exact coefficient type are assumed'
MLIB = 'the contracts in contracts/machine/prelude.rs of casts, bit counts, abs, Vec, slices, BTreeMap and eager iterators are assumed; usize has 64 bits'
SIZE = 'polynomials fit in memory; the degree of a result of sparse or monomial multiplication or shifting fits in usize'
TECH = 'Verus contracts on the functions extracted from /repo/src on every run; contracts also executed on the real crate to find failing inputs'
PROOF = 'every function the property depends on is verified against its contract for all inputs, loops by inductive invariants with termination'
PROPS = {}
def p(i, *assumptions, budget=(25, 240), level='proof', technique=TECH, note=PROOF):
    PROPS[i] = {'budget': budget, 'level': level, 'rule': RULE, 'assumptions': list(assumptions), 'technique': technique,
                'note': note + '. Assumes: ' + '; '.join(assumptions)}
FLT = 'comparison, negation, powi, powf, sqrt, abs of f32 and f64 are the mathematical ones on finite values (rounding is outside the property)'
for i in ('C01', 'C02', 'C09'): p(i, EXACT, LIB)
for i in ('C03', 'C04', 'C07'): p(i, EXACT, SIZE, LIB)
p('C05', EXACT, SIZE, LIB, MLIB, FLT)
for i in ('C08', 'C10'): p(i, EXACT, LIB, MLIB, FLT)
p('C14', EXACT, LIB, MLIB)
p('C19', EXACT, LIB, MLIB, FLT)
p('C21', EXACT, 'assumed contract of the dependency roots (find_roots_sturm): it returns every real root of the monic polynomial it is given, each once', LIB)
p('C22', EXACT, LIB, MLIB, FLT.replace('abs of', 'abs, cbrt, acos, cos, max, min, division of'))
p('C06', SIZE, LIB)
for i in ('C11', 'C12'): p(i, LIB)
p('C13', LIB, MLIB)
p('C17', MLIB, 'float coefficients are finite', 'i8, u8, i16, u16 are exact in f32, and up to 32 bits in f64 (axiom)')
p('C18', LIB, MLIB)
p('C20', LIB, MLIB, 'the magnitude of the discriminant is representable (the property states it), and so are the coefficient operations before the root')
TEXT = ('how the number types write and read numbers is assumed (contracts/prelude.rs: digits and at most a point after an optional minus, '
        'reading inverts writing, an explicit plus is accepted); str, char, String and Formatter follow the text model of contracts/prelude.rs')
p('C15', TEXT, 'degrees are below usize::MAX for dense polynomials, and sums are exact', LIB)
p('C16', TEXT, LIB, MLIB, FLT)
