"""Per-property text for evidence and MANIFEST (what is explored, what is real, what is assumed)."""
REAL_LIB = "all CLPoly code reached by the operation, compiled from /repo's working tree (g++ -O1, basic-block callbacks); GMP arithmetic; libstdc++ containers"
STUB_RND = "std::random_device, std::mt19937, std::mt19937_64, std::rand, clocks: word source driven by the plan (distributions stay real)"
STUB_MEM = "global operator new/delete and GMP's allocation functions: counting, poisoning, canary and quarantine allocator with planned failures"
STUB_THR = "thread scheduler: real pthreads run one at a time, switched at planned basic-block counts; static-initialisation guards, mutexes and once flags block in the scheduler"
A_COMMON = ["the reference model in /verif/sim/model.cc is right (it shares no code with CLPoly)",
            "seeded search samples the input, draw, schedule and fault space; a clean batch is evidence, not proof"]
INFO = {}
def info(id, rule, real, stub, assumptions, quick_s=60, thorough_s=900, technique="", note="", **kw):
    INFO[id] = dict(rule=rule, real=real, stub=stub, assumptions=A_COMMON + assumptions, quick_s=quick_s, thorough_s=thorough_s, technique=technique, note=note, **kw)

info("C01", "one run = one generated input pair x one planned draw sequence (adversarial segments then fair); non-trivial: the modular algorithm consumed more than two random words",
     [REAL_LIB], [STUB_RND, STUB_MEM],
     ["mpz allocation failures abort inside GMP and are not simulated"], quick_s=60,
     technique="seeded simulation of the random source with adversarial draw sequences; exact gcd certified by a reference model, and equality across draw streams",
     note="samples inputs (6 variables at most, degrees up to about 10) and draw sequences; certificates are exact for each run")
info("C04", "one run = one history of registry calls with planned allocation failures; non-trivial: an allocation failure fired or a freed serial was reused",
     [REAL_LIB], [STUB_MEM, STUB_RND],
     ["a variable is not used after it is deleted, and new_variable(name) is not called with a live name (documented preconditions)"], quick_s=30,
     technique="seeded simulation of registry histories with injected allocation failures, checked step by step against a map model",
     note="histories of up to 63 calls over 16 names")
info("C05", "one run = one byte content with planned chunk sizes, end or device error at a planned byte, exception mask and number of reads (or: numbers, monomials, polynomials in several orders and rings, lists and sets written to a sound stream, whose text an independent reader must read as the value, and to a device that fails after a planned number of bytes); non-trivial: more than one chunk, a device error, a malformed token or a truncated write occurred",
     [REAL_LIB, "std::istream/std::ostream formatting"], ["stream buffers (simulated device with planned chunks, errors and capacity)", STUB_MEM],
     ["default stream format flags and the classic locale; a leading '+' is not part of the documented number syntax, so either outcome is accepted"], quick_s=30,
     technique="seeded simulation of stream devices with injected short reads, end of input, device errors and full devices, against an independent number parser",
     note="tokens up to about 80 digits")
info("C10", "one run = one to four generator calls with planned parameters under one planned draw sequence (adversarial segments: all zero, all one, counting, repeated, extreme words); non-trivial: at least one adversarial word was consumed",
     [REAL_LIB, "libstdc++ random distributions"], [STUB_RND, STUB_MEM],
     ["parameters within the documented ranges: coefficient range not {0}, monomial space within 64-bit ranks"], quick_s=30,
     technique="seeded simulation of the random source with adversarial draw sequences; results checked against the documented contract",
     note="up to 60 variables or degree 96, at most 2^57 monomials")
info("C11", "one run = one graph built call by call (random, cycle, grid, tree, chordal, bipartite, disconnected; up to 29 vertices, rarely 60-79; insertions that fail half way) and two to seven graph calls under one planned tie-break sequence; non-trivial: at least one tie was broken by a draw",
     [REAL_LIB], [STUB_RND, STUB_MEM],
     ["graphs are simple and undirected; node types: variable, string, int"], quick_s=30,
     technique="seeded simulation of the random source (std::rand) with adversarial tie-break sequences; results checked against graph-theoretic definitions",
     note="graphs on up to 29 vertices")
info("C12", "one run = a history of up to 63 steps over 38 registers (integers, rationals, modular numbers for two primes, five kinds of polynomials) with planned allocation failures; every register is compared with the model after every step; non-trivial: at least three steps took effect",
     [REAL_LIB], [STUB_MEM, STUB_RND],
     ["inexact use of exact operations and use of moved-from values are outside the contract", "allocation failures inside GMP abort by GMP's design and are not simulated"], quick_s=40,
     technique="seeded simulation of operation histories with injected allocation failures, checked step by step against an exact model",
     note="integers up to 6000 bits, polynomials up to 120 terms in 5 variables")

info("C02", "one run = one generated product (23 families) factored under fair draws and under one or two planned draw sequences; non-trivial: random words were consumed, or the input is univariate",
     [REAL_LIB], [STUB_RND, STUB_MEM],
     ["a factor that is neither split in any of the runs nor spans two planned parts is accepted as irreducible when the model holds no certificate"], quick_s=60,
     technique="seeded simulation of the random source with adversarial draw sequences; product, uniqueness, and completeness against the planned parts, equality across draw streams",
     note="univariate degree up to 40, multivariate total degree up to 11 in up to 4 variables; runs above the work limit are abandoned without a verdict")

info("C14", "one run = one to four products of planned parts with planned multiplicities, decomposed one by one and as a basis, under fair and under planned draws; non-trivial: some part is repeated",
     [REAL_LIB], [STUB_RND, STUB_MEM],
     ["coprimality and squarefreeness are decided by modular images at random points (61-bit primes, repeated)"], quick_s=40,
     technique="seeded simulation of the random source with adversarial draw sequences; product, coprimality, squarefreeness against an independent model, equality across draw streams",
     note="univariate degree up to 24, multivariate total degree up to 8 in up to 4 variables; runs above the work limit are abandoned without a verdict")

info("C13", "one run = one randomized computation executed with fair draws and again after a finite adversarial prefix (up to 40000 words) followed by fair draws; its work is measured in executed basic blocks; non-trivial: adversarial words reached the computation",
     [REAL_LIB], [STUB_RND, STUB_MEM],
     ["bounded means at most 60 times the work under fair draws plus 10^9 basic blocks; under fair draws, at most 4*10^9 basic blocks on inputs of the stated size"], quick_s=45,
     technique="seeded simulation of the random source: finite adversarial prefix, then fair draws, with a bound on executed basic blocks as the liveness check",
     note="gcd, factorization, squarefree decomposition and basis, all random generators; inputs of total degree up to 8 (2 variables), 5 (3), 4 (4), univariate up to 20")

info("C09", "one run = the roots of one to three lists of polynomials, then a history of up to 62 comparisons, refinements, copies, assignments, swaps and sorts with planned allocation failures; every touched root is checked against the exact real it denotes after every step, and all pairs at the end; non-trivial: two roots and two steps",
     [REAL_LIB], [STUB_MEM, STUB_RND],
     ["the target of a copy assignment interrupted by lack of memory may be overwritten only", "std::sort on root objects is not interrupted (the standard gives no guarantee); sorting pointers is"], quick_s=40,
     technique="seeded simulation of comparison histories with injected allocation failures, checked against exact real algebraic numbers (Sturm sequences)",
     note="squarefree part of all inputs of a run up to degree 25")

info("C08", "one run = one or two ideals and a history of up to 42 queries, copies, moves, assignments and building-block calls with planned allocation failures; every answer and, at the end, every object's basis are compared with a reference computation; non-trivial: the ideal is not zero and two or more steps ran",
     [REAL_LIB], [STUB_MEM, STUB_RND],
     ["over the integers the ideal is the one generated over the rationals, as documented, and remainders are defined up to a non-zero rational factor"], quick_s=40,
     technique="seeded simulation of query histories with injected allocation failures, checked against a reference Buchberger computation",
     note="up to 4 variables and total degree 8, ideals whose reference basis takes at most 150 pairs; lex, graded lex and both with a custom variable order")

info("C06", "one run = a history of up to 60 default-modulus changes, modular element, polynomial and univariate operations under explicit primes, and integer computations, with planned allocation failures; non-trivial: an operation ran while the default modulus was a different one",
     [REAL_LIB], [STUB_MEM, STUB_RND],
     ["primes from a fixed list of 14 between 2 and 2^64-59; the never-set default (0) is the configuration of every other check"], quick_s=40,
     technique="seeded simulation of histories of modulus changes with injected allocation failures, checked against independent modular arithmetic and against the same call under another default modulus",
     note="multivariate polynomials in 3 variables up to about 40 terms, univariate degree up to 60")

info("C03", "one run = one public operation with generated arguments, executed undisturbed and then once per planned failure (2 to 15 allocation points, single failure or memory exhausted from that point on), each followed by an undisturbed repetition; non-trivial: an allocation failure fired inside the operation",
     [REAL_LIB], [STUB_MEM, STUB_RND],
     ["GMP's own allocation function is not failed: GMP aborts the process by design when it is", "an operation may complete without the requested memory (std::stable_sort does) if its answer is the undisturbed one"], quick_s=60,
     technique="seeded simulation of memory: planned allocation failures at any point of any operation, checked for exception type, leaks, heap integrity, unchanged arguments and globals, and an exact repetition",
     note="about 75 operations (numbers, modular numbers, polynomials in three orders, gcd, squarefree, factorization, resultants, characteristic sets, Groebner bases, real roots, graphs, random generators); small to medium arguments")

info("C07", "one run = two to four simulated threads, each making one to three public calls on its own objects under its own planned draws, interleaved at planned basic-block counts (optionally with one allocation failure in whichever thread meets it); non-trivial: more than three thread switches inside library code",
     [REAL_LIB], [STUB_THR, STUB_RND, STUB_MEM],
     ["switches happen between executed basic blocks of CLPoly code (sequentially consistent memory); code inside libstdc++ and GMP binaries is atomic"], quick_s=45,
     technique="seeded simulation of thread schedules: deterministic scheduler over basic blocks, results compared with the same calls made alone",
     note="about 75 operations; up to 160 planned switches (400 thorough), then round robin")

info("C19", "one run = a history of up to 20 steps (products, exact quotients, quotients with remainder, sums, powers, derivatives, order conversions) on six registers of one ring with 1 to 77 variables and exponents around the packing limits, with planned allocation failures; every register is compared with the model after every step; non-trivial: an exponent above 60000 occurred or an allocation failure fired",
     [REAL_LIB], [STUB_MEM],
     ["total degrees stay below 2^61; larger ones would overflow the 64-bit exponents by design"], quick_s=40,
     technique="seeded simulation of operation histories with injected allocation failures, checked step by step against a dictionary model of polynomials",
     note="five monomial orders; polynomials up to 700 terms")

info("C15", "one run = a history of up to 10 resultants, discriminants, subresultant chains, pseudo-divisions and coefficient extractions on two to five polynomials of one ring, with planned allocation failures and results fed back; every answer is compared with determinants and formal pseudo-division at three random points modulo 2^61-1; non-trivial: a chain with a defect, a pseudo-division of degree gap two or more, or an allocation failure",
     [REAL_LIB], [STUB_MEM],
     ["equality is tested at random points modulo a 61-bit prime: a wrong answer passes with probability below 10^-45, a right one never fails"], quick_s=40,
     technique="seeded simulation of operation histories with injected allocation failures, checked against Sylvester determinants and formal pseudo-division",
     note="up to 4 variables, degree up to 14 (1 variable), 8 (2 or 3), 4 (4); integers and rationals; four monomial orders")

info("C18", "one run = a history of up to 25 products, sums, differences, divisions with remainder, gcds, scalings and conversions on four dense registers over one prime field (outputs may alias inputs), with remainder sequences of planned quotient degrees and planned allocation failures; every register is compared with schoolbook arithmetic after every step; non-trivial: a register longer than 100 or an allocation failure",
     [REAL_LIB], [STUB_MEM],
     ["the destination of an interrupted operation may hold anything and is rebuilt; gcds are compared up to a unit"], quick_s=45,
     technique="seeded simulation of operation histories with injected allocation failures, checked step by step against schoolbook arithmetic",
     note="16 primes from 2 to 2^64-59; lengths to 1700, across the thresholds 16, 100 and 340")

info("C16", "one run = a history of up to 16 characteristic sets, decompositions and splittings of one to four triangular sets and systems in one to four variables, with planned allocation failures and the resulting chains fed back; the zeros of every result are enumerated in a 61-bit prime field and compared with those of the input; non-trivial: a result of several chains or an allocation failure",
     [REAL_LIB], [STUB_MEM, STUB_RND],
     ["zeros outside the 61-bit prime field are not looked at; the zeros of a finite system are taken from a reference Groebner basis, those of an infinite one from a grid and from its own polynomials", "wrsd, rsd and RCtoSqrfree are called only on regular chains, as they require"], quick_s=40,
     technique="seeded simulation of operation histories with injected allocation failures, zero sets compared with enumerations in a prime field",
     note="up to 4 variables; runs above the work limit are abandoned without a verdict")

info("C17", "one run = a history of up to 26 conversions, constructions, mixed scalar/monomial/polynomial operators, substitutions, queries, comparisons and univariate operations over three registers of each of twelve representations, with planned allocation failures; every register is compared with the model after every step; non-trivial: more than six steps and conversions into two representations, or an allocation failure",
     [REAL_LIB], [STUB_MEM],
     ["the operators that are declared only for the default order are run in it", "a source given away by an interrupted moving conversion may hold anything"], quick_s=40,
     technique="seeded simulation of conversion and operator histories with injected allocation failures, checked step by step against a dictionary model and an independent definition of the monomial orders",
     note="up to 6 variables; total degree up to 400; five monomial orders over the integers and the rationals, and dense univariate polynomials")
