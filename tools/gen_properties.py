#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below
(keeps the two in step; MANIFEST claims exactly the ids that checks.json registers)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

N = "clpoly/"
p("C01", "Arbitrary-precision integers compute exact integer arithmetic",
  "Every operation on library integers (construction, conversion, comparison, + - * / %, floor division, gcd, lcm, powers, shifts, bit queries, text I/O) returns exactly what mathematical integer arithmetic prescribes, whatever mix of machine-word and multi-limb operands and results, aliased operands and in-place forms is used. The value of an object depends only on the number it denotes, never on how it was computed: equal numbers compare equal, hash equal and print equal. Division by zero is reported as an exception and never kills the process.",
  ["inputs", "histories"], "all integers and all sequences of in-place operations; especially values around the machine-word, sign and limb boundaries where the representation changes",
  "Unit tests use a handful of small and large constants; the representation switches at word boundaries for each operand and result combination and after each in-place step.",
  [N+"number/ZZ.hh", N+"number.hh"], [("tagged small/big representation and its normalisation", N+"number/ZZ.hh"), ("overflow-checked fast paths", N+"number/ZZ.hh")])
p("C02", "Arbitrary-precision rationals compute exact rational arithmetic",
  "Every operation on library rationals returns the exact rational result in lowest terms with a positive denominator, independent of operand representation and aliasing. Equal values are equal, hash equal and print and re-read to the same value. A zero denominator is rejected with an exception.",
  ["inputs", "histories"], "all pairs of rationals over numerators/denominators around representation boundaries, all operations, all short in-place operation histories",
  "Tests sample a few fractions; cross-representation shortcuts (integers, common denominators, unit numerators) each have their own normalisation obligation.",
  [N+"number/QQ.hh"], [("canonicalisation after each operation", N+"number/QQ.hh")])
p("C03", "Prime-field elements obey field arithmetic; prime search is correct",
  "For every supported prime modulus, library residues form the field of integers modulo that prime: every operation returns the canonical residue in range, every non-zero element has an inverse, and reduction of any integer or rational is the ring homomorphism. Primality answers are correct and the prime-search helpers return the next or previous prime.",
  ["inputs"], "all residues of all small primes exhaustively, boundary residues of word-size primes, all integers in bounded windows for primality",
  "Tests use a few residues of a few primes; overflow of the reduction steps only shows for large moduli and boundary residues.",
  [N+"number.hh"], [("Montgomery/Barrett-style reduction of products", N+"number.hh"), ("prime search", N+"number.hh")])
p("C04", "Variables keep unique identities through any create/delete history",
  "At any time there is a one-to-one correspondence between live variable names and live variable identifiers: looking a name or an identifier up always returns the same variable, creating a name that exists is refused or returns the existing one as documented, and automatically named variables never coincide with any live variable. Deleting a variable frees exactly that name and identifier and nothing else.",
  ["histories"], "all histories of create / look up / delete / auto-create operations over a few names and identifiers up to a bounded length",
  "Tests exercise one or two creations; identity clashes only arise after particular delete/re-create/auto-create orders.",
  [N+"variable.hh", N+"variable.cc"], [("global name and identifier tables with a free list", N+"variable.hh")])
p("C05", "Monomials and monomial orders obey their algebra",
  "Monomial product, quotient, divisibility, gcd, lcm, power and degree agree with exponent-vector arithmetic, and every offered monomial order (graded, lexicographic, custom variable order, variable-priority, univariate) is a strict total order, compatible with multiplication, that agrees with its mathematical definition. Comparison, equality, hashing and normal-form queries are consistent with each other.",
  ["inputs", "configurations"], "all pairs and triples of monomials in a few variables with bounded exponents, under each order and each custom variable order",
  "Tests check a few comparisons; totality and compatibility quantify over all pairs and triples.",
  [N+"monomial_order.hh", N+"monomial.hh", N+"basic_monomial.hh"], [("order comparators", N+"monomial_order.hh"), ("sparse exponent lists", N+"basic_monomial.hh")])
p("C06", "Polynomial + - * and powers are exact and results are canonical",
  "For every coefficient ring (integers, rationals, prime fields) and every monomial order, sums, differences, products, powers and scalar multiples of polynomials are exactly the mathematical ones, for any number of variables and any degrees. Every result is in canonical form (strictly descending terms, no zero coefficients), so equality of polynomials is equality of their representations, and operands are left unchanged even when they alias the result.",
  ["inputs", "configurations"], "all pairs (and short operation sequences) of polynomials with bounded support and coefficients for each ring and order, and families that straddle the thresholds of the packed-exponent fast path",
  "Tests multiply a few fixed polynomials; the packed fast path is selected by degree and number of variables and its overflow guard is only visible near thresholds.",
  [N+"basic_polynomial.hh", N+"basic.hh", N+"polynomial_.hh", N+"monomial_order.hh"], [("heap multiplication over sorted term lists", N+"basic.hh"), ("packed exponent compression and its guard", N+"monomial_order.hh")])
p("C07", "Polynomial division returns the unique quotient and remainder",
  "Dividing polynomials satisfies dividend = quotient * divisor + remainder with no remainder term divisible by the divisor's leading term, uniquely as the ordering defines; exact divisions return the exact quotient. Both results are canonical, whatever the number of variables, degrees, aliasing and number of divisor terms, and for integer coefficients a term is only divided when coefficient division rules allow it.",
  ["inputs", "configurations"], "all dividend/divisor pairs with bounded support for each ring and order, including families that straddle the packed fast path's thresholds",
  "Tests cover exact divisions of a few products; remainder bookkeeping differs by divisor shape and fast-path eligibility.",
  [N+"basic.hh", N+"basic_polynomial.hh", N+"polynomial.hh"], [("heap division", N+"basic.hh"), ("packed fast path and its fallback", N+"basic.hh")])
p("C08", "Pseudo-division satisfies its defining identity",
  "For every variable, pseudo-remainder and pseudo-quotient satisfy: a power of the divisor's leading coefficient times the dividend equals quotient times divisor plus remainder, with the remainder of smaller degree in that variable, the power being the one documented for the chosen mode. This holds for multivariate and univariate operands, including constants and operands not involving the variable.",
  ["inputs"], "all polynomial pairs of bounded degree and coefficients in up to three variables, each main variable and each mode",
  "Tests check one or two pairs; degree gaps, vanishing intermediate coefficients and early exit change the power and are input-specific.",
  [N+"polynomial.hh", N+"basic_polynomial.hh"], [("term-wise pseudo-division over the main variable", N+"polynomial.hh")])
p("C09", "Evaluation, derivatives, degrees and conversions preserve meaning",
  "Substituting values, differentiating, reading degrees, coefficients, leading coefficients and variables, and converting between orders, coefficient rings and univariate/multivariate forms all give the mathematically defined result in canonical form. Converting back restores the original polynomial.",
  ["inputs", "configurations"], "all polynomials with bounded support and coefficients, each variable, each substitution value, each pair of orders/rings offered",
  "Tests look at a few polynomials; cancellation on substitution, characteristic-p derivatives and order conversions need specific inputs.",
  [N+"polynomial.hh", N+"polynomial_.hh", N+"polynomial_convert.hh", N+"upolynomial.hh"], [("normalisation after substitution", N+"polynomial.hh"), ("conversion routines", N+"polynomial_convert.hh")])
p("C10", "Polynomial gcd is a greatest common divisor",
  "The gcd returned for any two integer polynomials (in every monomial order) or univariate prime-field polynomials divides both, and every common divisor divides it; for polynomials built with a known common factor it is that factor up to a unit. This includes zero, constants, coprime inputs, content-only gcds, inputs sharing no variables and inputs on which unlucky primes or evaluation points occur, and the result does not depend on such internal choices.",
  ["inputs", "configurations"], "all pairs of products over all factor triples with bounded support and coefficients in up to three variables, for every coefficient ring and order offered",
  "Tests check a few gcds; unlucky primes, evaluation collapse and leading-coefficient problems arise only for particular input combinations.",
  [N+"polynomial_gcd.hh", N+"polynomial_gcd.cc"], [("modular sparse interpolation with Chinese remaindering and trial division", N+"polynomial_gcd.hh"), ("content/primitive part split", N+"polynomial_gcd.cc")])
p("C11", "Contents, primitive parts, extended gcd and modular-image identities hold",
  "Content times primitive part restores a polynomial with a primitive part of content one; extended gcd returns cofactors satisfying the Bezout identity with a gcd; modular images are coefficientwise residues.",
  ["inputs"], "all polynomials (and pairs) of bounded degree/support and coefficients, all small moduli",
  "Tests check a handful; sign and unit normalisation, constants and zero operands are the typical gaps.",
  [N+"polynomial_gcd.hh", N+"polynomial_gcd.cc", N+"polynomial_factorize_univar.hh"], [("content computation", N+"polynomial_gcd.hh"), ("extended Euclid over prime fields", N+"polynomial_factorize_univar.hh")])
p("C12", "Squarefree decomposition reconstructs its input from squarefree parts",
  "Squarefree decomposition returns pairwise coprime squarefree non-constant factors with multiplicities whose product, with the returned constants, is the input. A squarefree basis of a list of polynomials consists of pairwise coprime squarefree polynomials with the same zeros as the list's product.",
  ["inputs"], "all products of bounded powers of bounded factors in up to three variables over integers, rationals and prime fields",
  "Tests decompose a few products; repeated contents, sign and factors not involving the main variable need specific inputs.",
  [N+"polynomial_gcd.hh", N+"polynomial_gcd.cc", N+"polynomial.hh", N+"polynomial_factorize_zp.hh"], [("repeated gcd with derivatives", N+"polynomial_gcd.hh")])
p("C13", "Resultants, discriminants and subresultant chains are exact",
  "The resultant of two polynomials in a variable equals the determinant of their Sylvester matrix (sign included), the discriminant and the subresultant sequence equal their determinant definitions, for all degrees, degree gaps and shared factors; in particular the resultant vanishes exactly when there is a common factor in that variable.",
  ["inputs"], "all pairs of polynomials of bounded degree and coefficients, univariate and with one or two parameters",
  "Tests use a few pairs; defective chains (degree drops) follow different branches for each gap pattern and sign convention.",
  [N+"resultant.hh"], [("subresultant algorithm with gap handling", N+"resultant.hh")])
p("C14", "Univariate integer factorisation is complete and irreducible",
  "Factoring a univariate integer polynomial returns a constant and primitive irreducible factors with multiplicities whose product is exactly the input, with no two factors associate; the same polynomial always yields the same set of factors. It terminates for every input, including those with many modular factors, large coefficients, and low-degree or constant inputs.",
  ["inputs"], "all products of bounded irreducible factors with bounded multiplicity, all polynomials of bounded degree and coefficients, and families with many modular factors",
  "Tests factor fixed examples; recombination subsets, lifting bounds and prime choices depend on the input.",
  [N+"polynomial_factorize_univar.hh", N+"polynomial_factorize.hh"], [("prime selection, Hensel lifting, recombination (subset and lattice based)", N+"polynomial_factorize_univar.hh")])
p("C15", "Multivariate integer factorisation is complete and irreducible",
  "Factoring a multivariate integer polynomial returns a constant and primitive irreducible factors with multiplicities whose product is exactly the input, with no two factors associate, for every number of variables and regardless of leading-coefficient structure, sparsity, repeated or monomial factors. The set of factors depends only on the input, not on internal evaluation points, and the computation terminates.",
  ["inputs", "configurations"], "all products of two or three polynomials from a bounded catalogue of irreducibles in two to four variables with bounded multiplicity",
  "Tests factor fixed products; leading-coefficient distribution, evaluation-point conditions and lifting retries are input-specific.",
  [N+"polynomial_factorize_wang.hh", N+"polynomial_factorize.hh"], [("evaluation point selection, leading-coefficient distribution, multivariate lifting", N+"polynomial_factorize_wang.hh")])
p("C16", "Rational-coefficient factorisation is complete and irreducible",
  "Factoring a polynomial with rational coefficients returns a rational constant and irreducible factors with multiplicities whose product is exactly the input, consistently with the integer factorisation of the cleared polynomial.",
  ["inputs"], "all rational multiples of products of bounded irreducible factors in one to three variables",
  "Tests factor a few rational polynomials; denominator clearing and unit handling vary with each input.",
  [N+"polynomial_factorize.hh"], [("denominator clearing and content redistribution", N+"polynomial_factorize.hh")])
p("C17", "Prime-field univariate factorisation is complete and irreducible",
  "Factoring a univariate polynomial over a prime field returns its leading coefficient and monic irreducible pairwise distinct factors with multiplicities whose product is the input, for every prime including 2 and primes smaller than the degree, and for every outcome of the internal random choices. The squarefree stage on its own returns squarefree, pairwise coprime parts with the right multiplicities.",
  ["inputs", "schedules"], "all monic polynomials of bounded degree over each small prime, and all outcomes of bounded deviations of the internal random draws",
  "Tests factor a few polynomials over a few primes; characteristic-p corner cases (p-th powers, p=2 splitting) are specific.",
  [N+"polynomial_factorize_zp.hh", N+"polynomial_factorize_univar.hh"], [("squarefree, distinct-degree and randomised equal-degree splitting", N+"polynomial_factorize_zp.hh")])
p("C18", "Dense prime-field arithmetic agrees across all algorithm choices",
  "Dense univariate multiplication, squaring, division with remainder and gcd over a prime field give the exact field result for every pair of lengths and every modulus size, whichever algorithm the lengths select, with no out-of-bounds memory access.",
  ["inputs"], "all pairs of lengths across all algorithm cut-offs, crossed with coefficient patterns that force cancellation and degree drops, for small and word-size primes; all small polynomials exhaustively",
  "Tests use random polynomials of a few lengths; recursion splits and degree drops at cut-offs depend on exact length pairs.",
  [N+"dense_upoly_zp.hh"], [("schoolbook/Karatsuba/half-gcd cut-offs", N+"dense_upoly_zp.hh")])
p("C19", "Real roots are isolated, counted and ordered correctly",
  "Real-root isolation of a nonzero polynomial or of a list of them (for the single-polynomial Descartes routine: a squarefree one) returns one isolating object per distinct real root, none missing and none extra, in increasing order; refining keeps the root and comparisons between algebraic numbers, and between them and rationals, agree with the true order of the reals and identify equal numbers.",
  ["inputs", "histories"], "all integer polynomials of bounded degree and coefficients, all products of linear and quadratic factors with bounded roots and multiplicities, all pairs and lists of them, all refinement sequences of bounded length",
  "Tests isolate a few polynomials; roots at interval endpoints, zero, shared roots and near-equal roots are input-specific.",
  [N+"realroot.hh", N+"realroot.cc"], [("Uspensky/Descartes bisection", N+"realroot.cc"), ("interval refinement and comparison", N+"realroot.cc")])
p("C20", "Groebner bases generate the ideal and decide membership",
  "The computed Groebner basis generates the same ideal as the input polynomials, all S-polynomials reduce to zero modulo it, and where reduced form is promised it is the unique reduced basis for the order, independent of the order in which generators are listed. Ideal membership answers, normal forms and S-polynomials agree with it (over the integers: with the rational ones up to a nonzero constant factor).",
  ["inputs", "histories"], "all ideals with two or three generators from bounded catalogues in two or three variables, under each order, all permutations of generators",
  "Tests run a few systems; the pair-elimination criteria only misfire for specific leading-monomial configurations.",
  [N+"groebner.hh"], [("pair selection and elimination criteria", N+"groebner.hh"), ("full reduction", N+"groebner.hh")])
p("C21", "Characteristic sets satisfy their defining triangular properties",
  "A basic set is an ascending chain of minimal rank; the characteristic set of a system is an ascending set to which every input pseudo-reduces to zero; the components of Wu's decomposition (off their initials), of the regular decomposition of a zero-dimensional system, of the splitting of a zero-dimensional regular chain by a polynomial (rsd: a squarefree chain; wrsd: any), and of its squarefree decomposition (first polynomial squarefree) have together exactly the zeros they should; and reducedness, rank comparison and regularity answers agree with their definitions.",
  ["inputs"], "all systems of two or three polynomials from bounded catalogues in two or three variables with all variable orders",
  "Tests look at one or two systems; rank ties, constants and splitting branches need specific systems.",
  [N+"charset.hh"], [("basic set selection and pseudo-reduction loop", N+"charset.hh")])
p("C22", "Associated-graph algorithms are correct on every graph",
  "The variable graph of polynomials has an edge exactly between variables that occur together; connectivity, chordality tests, elimination orders and chordal completions satisfy their definitions (an order reported perfect leaves no fill-in, a completion is chordal and contains the graph) for every graph and every tie-breaking choice.",
  ["inputs", "schedules"], "all graphs on up to five or six nodes and all tie-breaking outcomes, all polynomial sets over a few variables with bounded support",
  "Tests check a couple of graphs; ties and disconnected graphs are structural cases.",
  [N+"associatedgraph.hh", N+"associatedgraph.cc"], [("maximum-cardinality style ordering with random ties", N+"associatedgraph.cc")])
p("C23", "Random generators honour their contracts for every random outcome",
  "Random polynomials, selections, samples and graphs always satisfy the requested numbers of terms, degree bounds, coefficient ranges, sizes and distinctness, for every outcome of the random source; and every admissible selection, sample, support and graph can actually come out.",
  ["schedules", "inputs"], "all parameter values in bounded ranges crossed with all outcomes of bounded deviations of the random draws",
  "Tests draw a few random objects; contract violations happen only on particular draws.",
  [N+"random.hh"], [("draw-and-retry selection", N+"random.hh")])
p("C24", "Answers do not depend on hidden random choices or earlier calls",
  "Algorithms that use randomness internally (gcd, factorisation, squarefree decomposition) return the same mathematical result for every outcome of that randomness, including unlucky ones, and irrespective of which computations were run before in the same process (including which default prime was selected for Zp, which a computation also leaves as it was, and arithmetic in Zp with explicitly given primes).",
  ["schedules", "histories", "inputs"], "all bounded-deviation outcomes of the internal random draws, and all histories of up to three calls over a catalogue of 46 computations (gcd, factorisation, real roots, Groebner bases, characteristic sets, arithmetic in every ring, prime selection, variable churn)",
  "Tests see one random stream; unlucky draws are rare by construction.",
  [N+"polynomial_gcd.hh", N+"polynomial_factorize_wang.hh", N+"polynomial_factorize_univar.hh"], [("randomised evaluation points with verification and retry", N+"polynomial_gcd.hh")])
p("C25", "Equality, hashing and text output of polynomials are consistent",
  "Two polynomials are equal exactly when they denote the same polynomial; equal ones hash equal and print identically; printed text, read as ordinary algebra, denotes the polynomial. Copies and moves keep values, and moved-from or cleared objects are reusable.",
  ["inputs", "histories"], "all polynomials with bounded support and coefficients in each ring and order, all pairs, all short copy/move/assign histories",
  "Tests print a few polynomials; signs, unit coefficients and constants each print through different branches.",
  [N+"basic_polynomial.hh", N+"polynomial_.hh", N+"upolynomial.hh", N+"basic_monomial.hh"], [("stream output", N+"basic_polynomial.hh"), ("hash specialisations", N+"basic_polynomial.hh")])
p("C26", "Factorisation stages meet their contracts for every prime, precision and point",
  "Whichever admissible prime, lifting precision or evaluation point is used: Hensel lifting yields monic factors that reduce to the modular ones and multiply to the polynomial modulo a prime power of the requested precision (by default large enough for every divisor); each recombination method recovers exactly the irreducible factors from them; lattice reduction returns an LLL-reduced basis of the same lattice with its unimodular transformation and exactly the short rows; the Diophantine and Vandermonde solvers solve their equations; evaluation points keep degree and squarefreeness; leading coefficients are distributed consistently; and multivariate lifting recovers the true factors when the image splits as the polynomial does.",
  ["inputs", "schedules"], "all products of catalogue irreducibles crossed with all catalogue primes, precisions and evaluation points, all small lattices, all small Diophantine systems and bounded-deviation outcomes of the random draws",
  "The factoriser itself picks one prime, one precision and one evaluation point per input, and retries hide a stage that went wrong; tests of the stages use a handful of examples.",
  [N+"polynomial_factorize_univar.hh", N+"polynomial_factorize_wang.hh"], [("quadratic Hensel lifting over a factor tree", N+"polynomial_factorize_univar.hh"), ("LLL reduction with incremental Gram-Schmidt update", N+"polynomial_factorize_univar.hh"), ("sparse and dense multivariate lifting", N+"polynomial_factorize_wang.hh")])

cfg = json.load(open(os.path.join(V, "checks.json")))
checks, na = [], []
for d in P:
    c = cfg.get(d["id"])
    if c is None or c.get("off"):
        na.append({"property": d["id"], "reason": (c or {}).get("off", "check not built yet")}); continue
    checks.append({"property": d["id"], "quick_cmd": "python3 run.py %s --tier quick" % d["id"],
      "thorough_cmd": "python3 run.py %s --tier thorough" % d["id"], "evidence_file": "evidence/%s.json" % d["id"],
      "technique": c.get("technique", "bounded-exhaustive enumeration of inputs/operation histories on the real code against a reference model"),
      "level": "model_checking",
      "level_note": c.get("note", "Every case of every scope is executed on the compiled library and compared with an independent reference; nothing beyond the stated bounds is claimed. Trusts GMP, the compiler and the reference model.")})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=True) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 -c \"import json;json.load(open('checks.json'))\" && g++ --version >/dev/null",
  "checks": checks, "not_applicable": na,
  "hooks": {"guard": "CLPOLY_VERIF_CUTOFFS", "enable": "harnesses are compiled with -DCLPOLY_VERIF_CUTOFFS plus -DCLPOLY_VERIF_KARATSUBA/-DCLPOLY_VERIF_HGCD/-DCLPOLY_VERIF_GCD values, which lower the size thresholds of the dense Zp algorithms so that small inputs reach every algorithm", "source_commits": ["7987ea243398bc65f0e822e4df9c4a9addd834ee"]},
  "notes": "Generated by tools/gen_properties.py. The only hook in /repo makes compile-time thresholds adjustable; otherwise harnesses use the public API and interpose the C++ random engine at compile time."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
