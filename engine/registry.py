"""property id -> implementation and evidence text"""
ABS = ('clang 18 lowers the current sources to LLVM IR; an abstract interpreter (symbolic-heap domain x linear-inequality '
       'domain, widening at loop heads) computes, for every public operation and every family of inputs, the abstract exit '
       'states; each obligation compares an exit state with the specification')
TB = ['clang++-18 front end and llvm-link', 'engine/absint.py, engine/lin.py (abstract domains)', 'models of the C/C++ runtime in engine/models.py']
INT = 'machine integers do not overflow (exponents, degrees, sizes stay far below 2^31)'


def P(rule, *impl, **kw):
    d = dict(level='proof', explain=ABS, rule=rule, impl=impl, trusted=TB, assumptions=[INT])
    d.update(kw)
    return d


SCN = ('clang 18 lowers the current sources and a set of client programs to LLVM IR; the abstract interpreter follows every path of '
       'the clients with arbitrary values (linear-arithmetic domain) and arbitrary choices, over a heap of exactly tracked blocks with '
       'arena ownership, sizes and liveness; each obligation states what the public interface must report afterwards')


TREE = ('the LLVM IR of the tree operations is interpreted over an arbitrary red-black tree: subtrees are opaque (symbolic black height, key interval) and '
        'split into empty / black root / red root only when the code looks at them; each exit state is compared with the red-black invariants and the in-order contents')


TOK = ('the LLVM IR of the completion algorithms is interpreted with polynomials abstracted to leading monomial and identity: a head reduction yields zero or an '
       'arbitrary smaller irreducible polynomial (at most 1 non-zero outcome per history in the quick run, 2 in the thorough run), sizes are arbitrary, tails are not tracked; '
       'a record of what was obtained from what decides the obligations when an algorithm ends')


def S(drv, rule, *impl, **kw):
    d = dict(level='other', explain=SCN, rule=rule, impl=impl, trusted=TB + ['drivers/' + drv], assumptions=[INT],
             drivers=(drv,) if isinstance(drv, str) else drv)
    d.update(kw)
    return d


PYX = ('the syntax trees (Python ast) of the current pyginv/*.py are interpreted abstractly by engine/pyabs.py over exactly tracked objects and a linear-arithmetic domain for '
       'exponents, components and rational coefficients; each undecided comparison splits the state, so every path of the client program is followed; each obligation states what the '
       'public interface must report afterwards, and a deviation is reported only with values of the unknowns that satisfy the facts of the path')
PYTOK = ('the syntax trees of pyginv/*.py are interpreted with polynomials abstracted to leading monomial and identity: a head reduction yields zero or an arbitrary smaller '
         'irreducible polynomial (a bounded number of non-zero outcomes), tails and sizes are arbitrary; a record of what was obtained from what decides the obligations when a completion ends')


def Y(rule, *impl, **kw):
    d = dict(level='other', explain=PYX, rule=rule, impl=impl, trusted=['Python ast module', 'engine/pyabs.py (abstract interpreter)', 'engine/pymodels.py (standard library, sympy expressions)', 'engine/lin.py'],
             assumptions=['the standard library means what engine/pymodels.py says'],
             technique='abstract interpretation of the Python syntax trees of the current sources')
    d.update(kw)
    return d



CYX = ('cython/ginv.pyx is parsed by Cython\'s own parser (engine/cyx.py) and its methods are interpreted by engine/pyabs.py over models of the C++ classes it declares: what the library '
       'means is left open (uninterpreted, except for the ring and monomial operations), what is asked of it, with which arguments, in which state and in which arena is tracked exactly; '
       'undecided comparisons split the path; a deviation is reported only with values of the unknowns that satisfy the facts of the path')


def Z(rule, *impl, **kw):
    d = dict(level='other', explain=CYX, rule=rule, impl=impl, trusted=['the parser of Cython 3', 'engine/cyx.py (syntax of the binding)', 'engine/pyabs.py (abstract interpreter)',
                                                                       'engine/p_cy.py (models of the C++ classes)', 'engine/lin.py'],
             assumptions=['the C++ library means what the other properties say'],
             technique='abstract interpretation of the Cython syntax tree of the current binding')
    d.update(kw)
    return d


PROPS = {
    'M01': P('for every variable index k and every size n: exponent k and the stored degree of each constructed or updated '
             'monomial equal the specified function of the operands; operands unchanged',
             'p_monom.p_exponents', min_ok=100),
    'M02': P('the component of each result is the specified function of the operands\' components', 'p_monom.p_component', min_ok=18),
    'M03': P('gcd/lcm degree: each index contributes min/max exactly once', 'p_monom.p_gcdlcm', min_ok=12),
    'M04': P('divisibility and equality answer exactly the componentwise relation', 'p_monom.p_divides', min_ok=20),
    'M05': P('lex, degree-reverse-lex and anti-degree orders: the verdict is decided by the specified witness for every size',
             'p_monom.p_orders', min_ok=20),
    'M06': P('comparison with a product equals comparison with the multiplied-out monomial', 'p_monom.p_orders3', min_ok=20),
    'M07': P('exponent storage: in-bounds accesses, own block, right arena, exact release size, released exactly once',
             'p_monom.p_storage', min_ok=90),
    'P01': P('each of the six module orders, in both comparison forms', 'p_monom.p_module_order', min_ok=250),
    'L01': S('d_list.cpp', 'client programs over lists of 0..3 arbitrary values: every position of insertion, removal and transfer; the sequence, '
             'length and iterator position afterwards', 'p_util.p_list_seq', min_ok=35),
    'L02': S('d_list.cpp', 'client programs over copies, assignments, moves and exchanges of lists; values, independence, arena ownership',
             'p_util.p_list_own', min_ok=25),
    'L03': S('d_list.cpp', 'client programs over stacks with growth, copy, assignment, exchange', 'p_util.p_stack', min_ok=20),
    'T01': S('d_tree.cpp', 'search, nearest-key, extreme-key and neighbour queries on an arbitrary red-black tree (opaque subtrees split on demand, '
             'walked path at most 5/6 nodes deep): the answer is the specified node of the in-order sequence and the tree is unchanged', 'p_tree.p_query',
             min_ok=25, explain=TREE),
    'T02': S('d_tree.cpp', 'insertion and removal on an arbitrary red-black tree (path at most 6/7 nodes): in-order contents, parent links, colours, '
             'black heights, count, released node', 'p_tree.p_update', min_ok=25, explain=TREE),
    'T03': S('d_tree.cpp', 'client programs over trees of 0..4 arbitrary ordered keys in every insertion order: copies, assignment, exchange, clearing, arena ownership',
             'p_tree.p_own', min_ok=30),
    'A01': S('d_arena.cpp', 'client programs that take, return and exchange blocks of arbitrary sizes in one or two arenas: containment, alignment, separation, '
             'lifetime (the arena code itself is analysed, pages from an aligned_alloc model)', 'p_util.p_arena_blocks', min_ok=18),
    'A02': S('d_arena.cpp', 'client programs over blocks of arbitrary sizes: usage, reserve, global sum and maximum, limit', 'p_util.p_arena_account', min_ok=22),
    'A03': S('d_arena.cpp', 'client programs over objects holding their own arena: copy, assignment, exchange, collection', 'p_util.p_arena_holder', min_ok=25),
    'I01': S('d_int.cpp', 'every arithmetic operation on arbitrary integers: the exact result, operands unchanged (GMP operations modelled by their meaning)',
             'p_util.p_int_value', min_ok=35),
    'I02': S('d_int.cpp', 'every predicate on arbitrary integers', 'p_util.p_int_pred', min_ok=11),
    'I03': S('d_int.cpp', 'every operation on integers whose limbs live in arenas: capacity sufficient for every result, limbs returned once to their arena with their size',
             'p_util.p_int_store', min_ok=9),
    'I04': S('d_int.cpp', 'printing of arbitrary integers in three bases: the text is the number, the buffer is large enough and released', 'p_util.p_int_text', min_ok=4),
    'H01': S('d_misc.cpp', 'coefficients of binomials, sums, differences and multiples as polynomials in the arbitrary argument', 'p_util.p_hilbert', min_ok=13),
    'H02': S('d_misc.cpp', 'every rational is initialised before use and cleared once; buffers and arrays released', 'p_util.p_hilbert_store', min_ok=4),
    'U01': S('d_misc.cpp', 'start/stop/resume histories over arbitrary clock readings', 'p_util.p_timer', min_ok=10),
    'R01': S('d_misc.cpp', 'shuffles of 1..4 indices over every sequence of draws', 'p_util.p_perm', min_ok=9),
    'R02': S('d_rand.cpp', 'random monomials of 1..3 variables and permuted monomials of 1..4 variables over every sequence of draws', 'p_util.p_random', min_ok=10),
    'O01': S('d_out.cpp', 'client programs print monomials, polynomials, marked monomials, Hilbert polynomials and permutations with arbitrary contents; the characters and numbers written are compared with the documented form', 'p_out.p_out', min_ok=8),
    'Q01': S('d_poly.cpp', 'client programs over polynomials with arbitrary exponents and coefficients: after every operation terms strictly descend, no coefficient is zero, '
             'the length is right', 'p_poly.p_form', min_ok=60),
    'Q02': S('d_poly.cpp', 'client programs over polynomials with arbitrary exponents and coefficients: the coefficient of an arbitrary monomial in the result', 'p_poly.p_ring', min_ok=40),
    'Q03': S('d_poly.cpp', 'head and term reduction of polynomials with arbitrary exponents and head coefficients G*a, G*b, gcd(a, b)=1', 'p_poly.p_reduce', min_ok=15),
    'Q04': S('d_poly.cpp', 'content removal of polynomials with content G and coprime cofactors', 'p_poly.p_content', min_ok=8),
    'Q05': S('d_poly.cpp', 'all polynomial client programs: every node, exponent block and limb block is alive when used, released once to its arena with its size', 'p_poly.p_store', min_ok=30),
    'Q06': S('d_poly.cpp', 'normal forms against a client\'s collection of reductors', 'p_poly.p_nf', min_ok=20),
    'J01': S('d_janet.cpp', 'client programs that enter up to 3 monomials with arbitrary exponents and search for an arbitrary one, against Janet\'s definition', 'p_janet.p_find', min_ok=30),
    'J02': S('d_janet.cpp', 'client programs that enter up to 3 monomials (4 in the thorough run) with arbitrary exponents: every non-multiplicative mark against Janet\'s definition', 'p_janet.p_flags', min_ok=10),
    'J03': S('d_janet.cpp', 'client programs over copies, exchanges and collections of trees', 'p_janet.p_copies', min_ok=20),
    'J04': S('d_janet.cpp', 'client programs over tree entries with arbitrary monomials and marks', 'p_janet.p_entry', min_ok=25),
    'J05': S('d_janet.cpp', 'client programs that enter up to 2 monomials of arbitrary exponents into a forest of trees and search for an arbitrary one, across growth', 'p_janet.p_forest', min_ok=12),
    'J06': S('d_janet.cpp', 'client programs that push up to 3 arbitrary monomials and search for an arbitrary one, in three orders', 'p_janet.p_list', min_ok=15),
    'J07': S('d_janet.cpp', 'completions of every pair of generators with small exponents in 1 to 3 variables', 'p_janet.p_close', min_ok=30),
    'J08': S('d_janet.cpp', 'Hilbert polynomial of trees of up to 2 monomials with arbitrary exponents', 'p_janet.p_hilbert', min_ok=6),
    'G01': S('d_tok.cpp', 'every history of the four completion algorithms on generators with the given leading monomials: each generator and each remainder is reduced again or in the basis, '
             'and its leading monomial has a divisor there', 'p_gb.p_loss', min_ok=100, explain=TOK),
    'G02': S('d_tok.cpp', 'every history: each non-multiplicative prolongation of a basis element has a divisor and was reduced, is in the basis, or is superfluous by a criterion on ancestors',
             'p_gb.p_close', min_ok=100, explain=TOK),
    'G03': S('d_tok.cpp', 'every history: order, entries, marks, ancestors, lookup and size of the finished basis', 'p_gb.p_form', min_ok=300, explain=TOK),
    'G04': S('d_tok.cpp', 'every history: a non-zero constant of the ring is obtained exactly when the result is the unit ideal', 'p_gb.p_unit', min_ok=80, explain=TOK),
    'G05': S('d_tok.cpp', 'every history: only generators, multiples and remainders are reduced, used for reduction or put into the basis; heads are divisible', 'p_gb.p_provenance', min_ok=200, explain=TOK),
    'G06': S('d_tok.cpp', 'every history: when a completion ends the content of each element has been removed since it last changed, and its tail looked at since a smaller element came',
             'p_gb.p_type', min_ok=40, explain=TOK),
    'G07': S('d_tok.cpp', 'every history: entries, list nodes, exponent blocks, limbs and tree nodes are alive when used and released once', 'p_gb.p_store', min_ok=80, explain=TOK),
    'G08': S('d_tok.cpp', 'every history in the polynomial ring: Hilbert polynomial of the basis', 'p_gb.p_hilb', min_ok=12, explain=TOK),
    'G09': S('d_tok.cpp', 'every history of two completions with generators pushed in between', 'p_gb.p_again', min_ok=80, explain=TOK),
    'G10': S('d_tok.cpp', 'every history: normal forms before and after a completion, per-component view of the basis', 'p_gb.p_nf', min_ok=40, explain=TOK),
    'D01': S('d_*.cpp', 'the library compiled with its assertions: every client program of the other properties (quick: without the largest)', 'p_assert.p_assertions', min_ok=150),
    'P02': P('order code, size and comparison functions move together', 'p_monom.p_order_travels', min_ok=300),
    'Y01': Y('client programs over monomials with arbitrary exponents and components in 1 to 3 variables', 'p_py.monomials', min_ok=115),
    'Y02': Y('four orders on arbitrary monomials, ring and module', 'p_py.orders', min_ok=90),
    'Y03': Y('client programs over polynomials of up to 3 terms with arbitrary exponents and coefficients, three classes: canonical form after every operation', 'p_py.p_canon', min_ok=170),
    'Y04': Y('the same client programs: the sum of terms of every result, operands unchanged', 'p_py.p_value', min_ok=100),
    'Y05': Y('results are overwritten term by term; the operands must not notice', 'p_pyred.p_share', min_ok=32),
    'Y06': Y('one reduction step and S-polynomials of polynomials with arbitrary exponents and coefficients', 'p_pyred.p_red', min_ok=130),
    'Y07': Y('normal forms: all monomials from a finite box, arbitrary coefficients', 'p_pyred.p_nf', min_ok=58),
    'Y08': Y('content removal of arbitrary integer and symbolic coefficients', 'p_pyred.p_content', min_ok=14),
    'Y09': Y('derivations, shifts, expressions of the algebra system turned into difference and differential polynomials, their reductions', 'p_pyred.p_diff', min_ok=78),
    'Y10': Y('printed forms of arbitrary polynomials are read back', 'p_pyred.p_text', min_ok=12),
    'Y11': Y('wraps with arbitrary monomials and ancestors', 'p_pyjan.p_wrap', min_ok=84),
    'Y12': Y('trees and forests of up to 3 monomials from a finite box, every order of entry, every query', 'p_pyjan.p_jtree', min_ok=53),
    'Y13': Y('Hilbert polynomials of trees and forests; binomials of an arbitrary argument', 'p_pyjan.p_hp', min_ok=12),
    'Y14': Y('every history of the two completions', 'p_pycomp.p_closed', min_ok=480, explain=PYTOK),
    'Y15': Y('every history of the two completions followed by interreduction and content removal', 'p_pycomp.p_tails', min_ok=42, explain=PYTOK),
    'Y16': Y('every history of repeated completions, printing variants, the caching tree, difference polynomials', 'p_pycomp.p_more', min_ok=240, explain=PYTOK),
    'Z01': Z('each method of the binding answers the value of the library call it stands for, on every path; operands keep their values', 'p_cy.p_values', min_ok=143),
    'Z02': Z('no path of any call of a method leads to a library call outside its preconditions', 'p_cy.p_misuse', min_ok=115),
    'Z03': Z('each object handed out stays usable when everything else is dropped; at the end everything made is released, and before its arena', 'p_cy.p_life', min_ok=38),
}
