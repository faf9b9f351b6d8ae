#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "GCD is exact whatever the random evaluation points are",
 "For any two integer polynomials (univariate or multivariate, lex, degree-lex or a custom variable order) the GCD call returns a polynomial that divides both inputs and leaves cofactors with no common factor, integer content included, content times primitive part gives back the polynomial, and the cofactors of the extended GCD satisfy Bezout's identity. The answer is the same polynomial for every sequence of values the random source may deliver while it is being computed: an unlucky evaluation point or prime is detected and retried, never turned into a wrong answer.",
 ["inputs", "schedules"],
 "all input pairs and all sequences of random draws (evaluation points) the modular algorithm can receive",
 "The tests take whatever std::random_device gives them: with a 64-bit prime a bad evaluation point has probability about 2^-60, so the retry and bad-point branches of the modular GCD never execute in any test run.",
 ["clpoly/polynomial_gcd.hh", "clpoly/polynomial_gcd.cc", "clpoly/upolynomial.cc"],
 [("Brown-style modular GCD with degree comparison, rational/Chinese reconstruction and final trial division", "polynomial_gcd.hh: __polynomial_GCD, polynomial_GCD"),
  ("heuristic integer-evaluation GCD with trial division", "polynomial_gcd.cc: __gcdheu")],
 [("gen", "64-bit Mersenne twister seeded from the random device; source of evaluation points", "polynomial_gcd.hh:888"),
  ("used evaluation points", "points already tried for the current variable", "polynomial_gcd.hh")],
 ["polynomial_GCD, gcd, cont, the returned polynomial"])

prop("C02", "Factorization is exact and complete whatever the random draws are",
 "Factoring any non-zero polynomial over the integers or the rationals, univariate or multivariate, in lex or degree-lex order, yields a content and pairwise distinct primitive irreducible factors with positive multiplicities whose product is exactly the input. The multiset of factors is the same for every sequence of values the random source may deliver: no unlucky draw loses a factor, splits wrongly, leaves a reducible factor or stops the call with an error.",
 ["inputs", "schedules"],
 "all inputs and all sequences of random draws used for evaluation points of the sparse interpolation and the inner GCDs",
 "The tests run with one unrepeatable random stream per run; the verification-failure and fallback branches of the sparse lifting are taken only for draws of negligible probability, and a wrong factor appears only for particular draws.",
 ["clpoly/polynomial_factorize.hh", "clpoly/polynomial_factorize_univar.hh", "clpoly/polynomial_factorize_wang.hh", "clpoly/polynomial_factorize_zp.hh"],
 [("Wang EEZ lifting with sparse interpolation, product check and fallback", "polynomial_factorize_wang.hh: __mtshl_sparse_int, __wang_core"),
  ("Zassenhaus recombination", "polynomial_factorize_univar.hh"),
  ("squarefree decomposition", "polynomial_gcd.hh")],
 [("gen/dis in sparse interpolation", "random skeleton evaluation points", "polynomial_factorize_wang.hh:483")],
 ["factorize(...).content and .factors"])

prop("C03", "Running out of memory is a clean failure in every algorithm",
 "If any memory request made inside a library call fails, the call ends with std::bad_alloc and nothing else: no crash, no termination, no heap corruption and no memory left allocated; a call that succeeds leaves allocated only what its result owns. The arguments passed by const reference and all process-wide state keep their values, and repeating the call with memory available gives exactly the answer of an undisturbed call.",
 ["crash_points", "fault_sequences", "inputs"],
 "every allocation point (single failure or memory exhausted from that point on) of every public operation, on generated arguments",
 "No test makes an allocation fail, so none of the thousands of exception edges in the arithmetic kernels is ever executed.",
 ["clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/monomial.hh", "clpoly/number/ZZ.hh", "clpoly/number/QQ.hh", "clpoly/polynomial_gcd.hh", "clpoly/polynomial_factorize.hh", "clpoly/realroot.cc", "clpoly/groebner.hh", "clpoly/charset.hh", "clpoly/resultant.hh"],
 [("RAII containers and the heap of raw node arrays in the sparse product/quotient kernels", "basic.hh: pair_vec_multiplies, pair_vec_div"),
  ("variable registry and number assignment ordering", "variable.hh, number/ZZ.hh")],
 [("live heap blocks", "blocks owned by the library", "all"), ("process-wide registries", "variable table, default modulus", "variable.hh, number.hh")],
 ["every public operation: exception type, arguments, result of the retry"],
 "global operator new is replaced in the check's own program; no hook in the repository")

prop("C04", "Variable names and serial numbers stay a bijection over any history",
 "At every moment each live variable has exactly one name and each name denotes exactly one live variable: looking a name up returns the variable that prints that name, creating an automatic or named variable never disturbs the name, number or identity of any other live variable, and deleting one affects only that one. A registry call that fails for lack of memory leaves the registry exactly as it was, so a later call succeeds as if the failed one had never been made.",
 ["histories", "crash_points"],
 "all histories of create, look-up, auto-create, delete and random-polynomial calls, with allocation failures at any point",
 "Tests create a handful of variables and never reuse a freed number, collide with an automatic name, or fail in the middle of a registry update.",
 ["clpoly/variable.hh", "clpoly/variable.cc"],
 [("name table, serial table and free list updated together", "variable.hh: init_variable, del_variable")],
 [("variables", "serial to name", "variable.hh:22"), ("name_map", "name to serial", "variable.hh:23"), ("free_serial", "deleted serials for reuse", "variable.hh:24")],
 ["variable::get_variable, new_variable, del_variable, name(), serial()"])

prop("C05", "Printed and read text is exact under any chunking, end or failure of the stream",
 "Reading an integer or a rational from a stream delivers exactly the number written there however the stream chunks its data, and the printed text of any number, variable, monomial or polynomial in any order or coefficient ring, of lists and sets of them, and of graphs and real-root intervals, says exactly that value. Malformed text, a zero denominator, end of input or an error in the middle never crashes, never lets a foreign exception escape, never leaves the target holding anything but its old value or a complete valid number, and is reported through the stream's failure state; an output stream that fails part-way changes nothing but the stream.",
 ["fault_sequences", "inputs", "histories"],
 "all byte contents, chunk boundaries, end-of-file and error positions and exception masks of the stream, for input and output",
 "Tests read only well-formed text from complete in-memory strings.",
 ["clpoly/number/ZZ.hh", "clpoly/number/QQ.hh", "clpoly/basic_polynomial.hh", "clpoly/basic_monomial.hh", "clpoly/variable.hh"],
 [("stream extraction and insertion operators", "number/ZZ.hh: operator>>, number/QQ.hh: operator>>")],
 [], ["operator>> and operator<< of the number and polynomial types"])

prop("C06", "The process-wide modulus changes only when set, and never leaks into results",
 "Modular results whose prime is given explicitly - element arithmetic, reduction of integer polynomials modulo a prime, modular polynomial arithmetic, modular GCD and factorization - and all integer and rational results are the same whatever process-wide default modulus is in force, whatever its history. No library operation other than the explicit setter changes the default modulus, including operations that end early with an exception, and elements created under one modulus keep it afterwards.",
 ["histories", "configurations", "fault_sequences"],
 "all histories of modulus changes interleaved with operations, with allocation failures aborting some operations",
 "Each test sets one modulus and keeps it; no test changes the default between the steps of a computation or aborts one.",
 ["clpoly/number.hh", "clpoly/polynomial_factorize_zp.hh", "clpoly/polynomial_gcd.hh", "clpoly/dense_upoly_zp.hh"],
 [("every element carries its own modulus and reduction constants", "number.hh: class Zp")],
 [("default modulus", "process-wide prime used by the default constructor", "number.hh:95")],
 ["Zp::cur_prime, Zp elements, polynomial_mod, __factor_Zp, polynomial_GCD over Zp"])

prop("C07", "Independent calls in different threads give their serial results",
 "Threads that work on distinct objects, with their variables created beforehand and the default modulus left alone, each obtain exactly the results they would obtain running alone, for every interleaving of their execution. No call waits on another thread, deadlocks, or crashes because of what other threads do.",
 ["schedules"],
 "all interleavings at basic-block granularity of two to four caller threads running public operations",
 "The test suite is single-threaded.",
 ["clpoly/polynomial_gcd.hh", "clpoly/polynomial_factorize.hh", "clpoly/polynomial_factorize_wang.hh", "clpoly/number/ZZ.hh", "clpoly/basic.hh", "clpoly/monomial_order.hh", "clpoly/realroot.cc", "clpoly/groebner.hh"],
 [("no mutable shared state besides the variable registry and the default modulus", "whole library")],
 [("function-local statics of the order objects", "shared read-only singletons", "monomial_order.hh:75,100; upolynomial.hh:53")],
 ["results of every public operation"],
 "compiler basic-block callbacks in the check's own build; no hook in the repository")

prop("C08", "An ideal answers the same whatever was asked or interrupted before",
 "The answers of an ideal object - its Groebner basis, membership tests and remainders - depend only on its generators: they are correct for that ideal and do not depend on which queries were made before, in which order, on copies or moves, or on a query that was interrupted by lack of memory. A polynomial built as a combination of the generators is always reported as a member with zero remainder, and a non-member never is.",
 ["histories", "crash_points", "inputs"],
 "all sequences of queries, copies, moves and interrupted queries on ideals over the rationals and the integers",
 "Tests ask each ideal object one or two questions in one order and never interrupt the lazy computation of the cached basis.",
 ["clpoly/groebner.hh"],
 [("lazily computed, cached basis", "groebner.hh: class Ideal"), ("normal form", "groebner.hh: __normal_form")],
 [("cached basis and its flag", "filled on first query", "groebner.hh: gb_cache_, gb_computed_")],
 ["Ideal::groebner_basis, contains, reduce"])

prop("C09", "Real roots keep their value and order through any history of comparisons",
 "Real-root isolation returns exactly the distinct real roots of the input polynomials in increasing order, and each root object denotes the same real number for ever: comparisons between roots, with rationals and with infinities agree with the true order of the reals, in any sequence, although they silently refine the stored intervals. Copying, moving, sorting or a comparison interrupted by lack of memory never changes which number a root denotes.",
 ["histories", "crash_points", "inputs"],
 "all sequences of comparisons, copies, moves, sorts and interrupted comparisons on the roots of generated polynomials, including nearly equal and shared roots",
 "Tests compare freshly isolated roots once; they never reuse roots whose intervals earlier comparisons have refined or a failed comparison left half-updated.",
 ["clpoly/realroot.hh", "clpoly/realroot.cc"],
 [("interval refinement by bisection and GCD test for equality", "realroot.cc: uroot::comp")],
 [("isolating interval and defining polynomial of a root", "mutated by comparisons", "realroot.hh: class uroot")],
 ["uspensky, realroot, uroot comparison operators, interval accessors"])

prop("C10", "Random generators honour their contract for every draw sequence",
 "For every sequence of values the random source may deliver, the random generators respect their documented parameters: selections are sorted, within range and duplicate-free when asked, samples are sub-multisets of the requested size, polynomials have the requested degree, at most the requested number of terms - all distinct - and coefficients in the requested range without zero terms, rational ones have denominators within bounds, and random graphs are simple, loop-free and symmetric on the given nodes. Every such call returns.",
 ["schedules", "inputs"],
 "all parameter choices within the documented ranges and all sequences of random draws",
 "Tests look at a few samples of one random stream; boundary draws (all equal, all minimal, all maximal) have negligible probability there.",
 ["clpoly/random.hh"],
 [("combinatorial unranking of distinct monomials", "random.hh: detail::unrank_monomial_*"), ("sorted draws with offsets", "random.hh: random_select")],
 [], ["random_select, RandomSample, random_polynomial, random_upolynomial, random_polynomial_QQ, random_graph, random_polynomials"])

prop("C11", "Chordal completions and elimination orders are valid for every tie-break",
 "For every graph and every sequence of random tie-breaking values, the chordal completion contains the input graph on the same vertices, is chordal, and the elimination order returned with it is a permutation of the vertices that is perfect for it; no added edge can be left out, so an already chordal graph gains none; the elimination order chosen for a polynomial system is minimal in the same sense. Elimination along a given order and its height, graph difference, distances, component splitting and the variable graph of a polynomial system agree with their definitions, and the graph container keeps exactly the nodes and edges added to it, one-way or two-way, also when the end points are named by references into the graph itself and when an insertion runs out of memory (the edge is then not added, not even half of it).",
 ["schedules", "fault_sequences", "inputs"],
 "all graphs on up to a few dozen vertices, all sequences of tie-breaking draws and a failing memory request at any point of an insertion",
 "Tests run with the C library's default random sequence or a clock-seeded one, on a few fixed graphs.",
 ["clpoly/associatedgraph.hh"],
 [("maximum cardinality search with random tie-breaks", "associatedgraph.cc: __MCS, __MCS_M")],
 [("std::rand state", "process-wide C generator seeded from the clock", "associatedgraph.cc:53")],
 ["chordal_completion, perfect_elimination_ordering, elimination_game, elimination_height, connected_branch, associatedgraph"])

prop("C12", "Arithmetic values are exact through any history, aliasing or aborted step",
 "Through any history of arithmetic, assignments, copies, moves, swaps and self-aliasing operations on integers, rationals, modular numbers and polynomials, every variable holds exactly the mathematically correct value in canonical form (equal values compare equal and print alike). An operation that fails - division by zero is reported by an exception, memory exhausted by std::bad_alloc - leaves every other value intact and its own target assignable and destructible, and later operations are unaffected.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of operations over a small register file, values across the small/large representation boundary, with allocation failures at any step",
 "Tests exercise operators one at a time on fresh values; the small/large representation switch, aliasing and failed steps combine only in longer histories.",
 ["clpoly/number/ZZ.hh", "clpoly/number/QQ.hh", "clpoly/number.hh", "clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/polynomial.hh", "clpoly/monomial.hh"],
 [("small-integer representation with promotion and demotion", "number/ZZ.hh"), ("sorted sparse term vectors", "basic.hh, basic_polynomial.hh")],
 [("inline value or heap integer", "two-state representation", "number/ZZ.hh: _val, _mpz")],
 ["all arithmetic operators, comparisons, printing"])

prop("C13", "Randomized algorithms finish once the random draws are fair again",
 "However unlucky a finite initial run of random draws is, every randomized computation - GCD, factorization, squarefree decomposition, random generation - terminates within a bounded amount of further work once draws are fair again. No bad draw puts it into an endless retry or makes its remaining work explode.",
 ["schedules", "inputs"],
 "all finite adversarial prefixes of the draw sequence followed by fair draws, on generated inputs of bounded size",
 "A test's timeout only sees lucky streams; retry loops that never make progress need an unlucky prefix.",
 ["clpoly/polynomial_gcd.hh", "clpoly/polynomial_factorize_wang.hh", "clpoly/random.hh"],
 [("retry loops that exclude used points and move on to the next prime", "polynomial_gcd.hh: __polynomial_GCD")],
 [], ["return of every randomized call, measured in executed basic blocks"])

prop("C14", "Squarefree decomposition is exact whatever the random draws are",
 "Squarefree factorization of any non-zero integer polynomial yields pairwise coprime squarefree factors with positive multiplicities whose product, with the content, is the input; the squarefree test agrees with it; and a squarefree basis of a set of polynomials consists of pairwise coprime squarefree polynomials that multiply up to every input. The results are the same for every sequence of values the random source may deliver.",
 ["inputs", "schedules"],
 "all inputs and all sequences of random draws in the inner GCD computations",
 "The tests sample one lucky random stream and a few inputs.",
 ["clpoly/polynomial_gcd.hh", "clpoly/polynomial_gcd.cc", "clpoly/upolynomial.cc"],
 [("Yun-style decomposition from derivatives and GCDs", "polynomial_gcd.hh: squarefreefactorize, squarefreebasis")],
 [], ["squarefreefactorize, squarefreebasis, is_squarefree, sqrfree"])

prop("C15", "Resultants, subresultant chains and pseudo-division are exact",
 "The resultant of two polynomials in a variable equals the determinant of their Sylvester matrix, every entry of a subresultant chain equals the corresponding determinant polynomial up to sign, and the discriminant satisfies its defining identity with the resultant of the polynomial and its derivative, over the integers and the rationals, in every variable and every monomial order. Pseudo-remainder and pseudo-quotient satisfy lc^k*F = Q*G + R with deg R < deg G, coeff lists the coefficients in a variable, and all of this holds through any history in which results feed later calls and memory requests fail.",
 ["inputs", "histories", "crash_points"], "all histories of resultants, chains, pseudo-divisions and coefficient extractions over all polynomials and main variables, with allocation failures at any point",
 "Tests check a few fixed pairs with regular remainder sequences; defective chains, leading coefficients that vanish and mixed variable orders arise from combinations of inputs nobody lists.",
 ["clpoly/resultant.hh", "clpoly/polynomial_.hh", "clpoly/polynomial.hh"], [("subresultant chain, resultant, discriminant", "resultant.hh"), ("prem, pquo, coeff", "polynomial_.hh")], [], ["resultant, discriminant, subresultant, prem, pquo, coeff"],
 "global operator new is replaced in the check's own program; no hook in the repository")
prop("C16", "Characteristic sets and triangular decompositions preserve the zero set",
 "A characteristic set of a polynomial system is a triangular set to whose zeros every zero of the system belongs and on which the system vanishes wherever the initials do not, and the decompositions of a system, and the splittings of a regular chain by another polynomial or into squarefree chains, together cover exactly the zeros they are documented to cover. Every computation on such a system ends, through any history in which resulting chains feed later splittings and memory requests fail.",
 ["inputs", "histories", "crash_points"], "all histories of decompositions and splittings of all polynomial systems and regular chains, with allocation failures at any point",
 "Tests check a few fixed systems; whether a chain lacks a variable, has multiple roots or meets the zero polynomial depends on what earlier splittings produced.",
 ["clpoly/charset.hh"], [("Wu's method", "charset.hh"), ("weak and full splittings of regular chains", "wrsd, rsd, RCtoSqrfree")], [], ["charset, Wucharset, ZDtoRC, GRDforZD, wrsd, rsd, RCtoSqrfree, is_regular"],
 "global operator new is replaced in the check's own program; no hook in the repository")
prop("C17", "Orders, conversions and mixed operators keep every polynomial's value",
 "Each monomial order is a total order compatible with multiplication with 1 as least element, and the comparison operators of monomials and polynomials are total orders that agree with equality and hashing. Conversion between orders, coefficient rings and the sparse, univariate and prime-field representations, construction from numbers, variables and monomials, every mixed operator between them, substitution, and the queries for degrees, variables and leading coefficients give the mathematical result in the destination's own order, through any history in which results feed later steps and memory requests fail.",
 ["inputs", "histories", "crash_points"], "all histories of conversions, constructions, operators and queries over all representations, with allocation failures at any point",
 "Tests check a few monomials and single conversions in one direction; whether a result still carries the right order only shows when it meets another polynomial later.",
 ["clpoly/monomial_order.hh", "clpoly/polynomial_convert.hh", "clpoly/polynomial_.hh", "clpoly/polynomial.hh", "clpoly/upolynomial.hh", "clpoly/basic_monomial.hh"], [("comparison functors", "monomial_order.hh"), ("poly_convert", "polynomial_convert.hh, upolynomial.hh"), ("mixed operators", "polynomial_.hh")], [], ["comparison, poly_convert, +, -, *, pow, assign, leadcoeff, degree, get_variables, tonum"],
 "global operator new is replaced in the check's own program; no hook in the repository")
prop("C18", "Dense modular arithmetic agrees with schoolbook arithmetic at every length",
 "Dense polynomial multiplication, division with remainder, GCD, scaling and conversion modulo any word-size prime agree with schoolbook arithmetic for all lengths and coefficients, across the thresholds at which faster algorithms take over and for every sequence of quotient degrees inside the half-GCD. This holds when an output is the same object as an input, through any history in which results feed later operations, and after a memory request failed.",
 ["inputs", "histories", "crash_points"], "all histories of dense operations at all lengths for every word-size prime, with aliasing outputs and allocation failures at any point",
 "Tests sample some lengths and primes with random coefficients, whose remainder sequences are all regular; the half-GCD's special cases need planned quotient degrees.",
 ["clpoly/dense_upoly_zp.hh"], [("Karatsuba and half-GCD", "dense_upoly_zp.hh")], [("thresholds", "16, 100 and 340 coefficients", "dense_upoly_zp.hh")], ["dense_upoly_zp operations"],
 "global operator new is replaced in the check's own program; no hook in the repository")

prop("C19", "Sparse arithmetic is exact for any number of variables and any exponents",
 "Sums, differences, products, powers, derivatives, exact quotients, quotients with remainder, degree and variable queries and order conversions of sparse polynomials over the integers, the rationals and the prime fields equal the mathematical results for any number of variables and any exponents that fit in 64 bits, in every monomial order, whether or not the monomials can be packed into machine words. Results list their terms strictly decreasing in the polynomial's order with no zero coefficient, through any history of operations in which each result feeds the next, and a failed memory request never makes a later result wrong.",
 ["inputs", "histories", "crash_points"],
 "all histories of arithmetic operations on polynomials of any number of variables and exponents, in every order, with allocation failures at any point",
 "Tests use two or three variables and single-digit exponents, so the packed representation is always chosen and its fields never come near overflowing; whether an operation packs depends on what earlier operations did to degrees and variables.",
 ["clpoly/monomial_order.hh", "clpoly/monomial.hh", "clpoly/basic.hh", "clpoly/polynomial_.hh", "clpoly/basic_polynomial.hh"],
 [("decision whether the monomials fit packed fields, packing, overflow detection", "monomial_order.hh: __is_monomial_can_compression"),
  ("packed heap product and quotient, fallback to the general kernels", "monomial.hh: pair_vec_multiplies, pair_vec_div; basic.hh")],
 [("field width", "64 divided by the number of variables (plus one in degree orders)", "monomial_order.hh")],
 ["+, -, *, /, pow, derivative, polynomial_div, degree, get_variables, poly_convert"],
 "global operator new is replaced in the check's own program; no hook in the repository")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch); assert p["statement"].count(". ") <= 2, p["id"]
except ImportError: pass
