"""Titles and statements of the properties."""
TEXT = []
NOT_APPLICABLE = {}


def T(id, title, statement, over, q, why, files, mech):
    TEXT.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech))


WM = 'The tests compare a few random monomials of one or two sizes with the same code; they cannot cover every size, exponent vector and component.'
MF = ['ginv/monom.h', 'ginv/monom.cpp']
T('M01', 'Monomial arithmetic is exact in every exponent and in the stored degree',
  'Constructing, copying, multiplying, prolonging by a variable, raising to a power, dividing, permuting, moving, swapping and assigning '
  'monomials yields exactly the componentwise exponents of the mathematical operation, for every number of variables. '
  'The stored total degree always equals the sum of the exponents, and the operands of a non-mutating operation keep their value.',
  ['inputs'], 'every number of variables, every exponent vector, every variable index and every power', WM, MF,
  [('constructors and mult/div/permutation', 'ginv/monom.cpp')])
T('M02', 'A product of module monomials keeps the right component',
  'The product of two monomials of which at most one carries a module component carries that component, a product of two scalars carries none, '
  'and copying, prolonging, raising to a power, moving, swapping and assigning carry the component of the source. A quotient by a scalar keeps the component, '
  'a quotient by a monomial of the same component is a scalar.',
  ['inputs'], 'every component number including "none" on either side', WM, MF, [('product constructor, mult, assignment', 'ginv/monom.cpp')])
T('M03', 'Degrees of gcd and lcm are the sums of componentwise minima and maxima',
  'For two scalar monomials the gcd query returns the sum over all variables of the smaller exponent and the lcm query the sum of the larger exponent; '
  'each variable is counted exactly once.', ['inputs'], 'every number of variables and every pair of exponent vectors', WM, MF, [('gcd, lcm', 'ginv/monom.cpp')])
T('M04', 'Divisibility and equality of monomials are decided componentwise',
  'A monomial is reported divisible by another exactly when no exponent of the divisor exceeds its own and the divisor is scalar or has the same component. '
  'Two monomials are reported equal exactly when their components and all exponents agree, and the inequality operator is its negation.',
  ['inputs'], 'every number of variables and every pair of exponent vectors and components', WM, MF, [('divisiable, operator==', 'ginv/monom.cpp')])
T('M05', 'Term orders: the verdict is decided by the degree and the defining variable',
  'The pure lexicographic order is decided by the first variable whose exponents differ; the degree order by the total degree and then, reversed, by the last '
  'differing variable; the anti-degree order by the reversed total degree and then by the first differing variable. '
  'The verdict is exactly -1, 0 or 1, is 0 only for equal exponents, and is therefore a total antisymmetric multiplicative order.',
  ['inputs'], 'every number of variables and every pair of exponent vectors', WM, MF, [('lex, deglex, alex', 'ginv/monom.cpp')])
T('M06', 'Comparing with an unexpanded product agrees with comparing with the product',
  'Each order applied to a monomial and a pair of factors gives the same verdict as the order applied to the monomial and the multiplied-out product of the pair.',
  ['inputs'], 'every number of variables and every triple of exponent vectors', WM, MF, [('three-operand lex, deglex, alex', 'ginv/monom.cpp')])
T('M07', 'A monomial owns exactly one exponent block of its recorded arena and size',
  'Every monomial operation reads and writes only inside the exponent blocks, a new monomial never shares its block with an operand, '
  'and destruction returns the block exactly once, to the arena it was taken from and with the size that was requested, also after moves, swaps and assignments.',
  ['inputs', 'histories'], 'every number of variables, every operation and every move/destroy order', 'A leaked or doubly released block changes no value a test reads.', MF,
  [('constructors, destructor, move operations', 'ginv/monom.h')])
T('P01', 'All six module orders combine component and term order as named',
  'A term-over-position order compares terms first and breaks ties by the larger component; a position-over-term order compares components first; '
  'each uses the term order it names, and the pairwise comparison and the comparison with an unexpanded product of one polynomial are the same order.',
  ['configurations', 'inputs'], 'all six order codes, all component relations, all exponent vectors and sizes',
  'Only some order codes are exercised by tests and the product form only indirectly.', ['ginv/poly.h', 'ginv/poly.cpp', 'ginv/monom.cpp'],
  [('order selection and the twelve comparison functions', 'ginv/poly.cpp')])
T('P02', 'The term order of a polynomial travels with it',
  'Copying, moving, assigning and swapping polynomial headers transfers the order code, the number of variables and both comparison functions together, '
  'the reported order and size are those of construction, and two headers are comparable exactly when order and size agree.',
  ['configurations'], 'all order codes and every pair of polynomials', 'Tests use one order throughout, so a mixed-up order after a swap is never visible.',
  ['ginv/poly.h', 'ginv/poly.cpp'], [('copy, move, swap and comparable', 'ginv/poly.cpp')])
UF = 'The tests replay a few fixed operation sequences; they cannot cover every position, value, order of operations and pair of operands.'
T('L01', 'A list is exactly the sequence its operations describe',
  'Insertion at either end or before any iterator position, removal at any position, taking nodes out and putting them back in the same or another list, '
  'and sorted transfer leave exactly the described sequence of elements; length, first and last element, membership and the iterator agree with it.',
  ['inputs', 'histories'], 'every position and every element value, lists of 0 to 3 elements as operands', UF, ['util/list.h'], [('List, Iterator, ConstIterator', 'util/list.h')])
T('L02', 'Copies of lists are independent, exchanges complete, storage follows',
  'Copying and assigning lists gives equal independent lists in the destination arena, self-assignment and assignment from an empty list included; moving and swapping '
  'exchange the contents; clearing empties the list; every node is released once, to the arena it came from.',
  ['inputs', 'histories'], 'lists of 0 to 3 elements on either side, one or two arenas', UF, ['util/list.h', 'util/allocator.h'], [('copy, move, swap, clear, destructor', 'util/list.h')])
T('L03', 'A stack is last-in first-out and survives growth, copy and exchange',
  'Pushing and popping returns elements in last-in first-out order across growth of the storage; copying, assigning, moving and swapping keep the contents of the source; '
  'storage is released once, to the arena it came from, with the size that was requested.',
  ['inputs', 'histories'], 'every element value, stack heights that cross the growth threshold', UF, ['util/stack.h', 'util/allocator.h'], [('Stack', 'util/stack.h')])
T('T01', 'Ordered-tree queries return the specified element',
  'For any red-black tree, searching finds a key exactly when it is present; the nearest-key queries, minimum and maximum, and the successor and predecessor of a node '
  'are the ones of the in-order sequence; no query changes the tree.',
  ['inputs'], 'every red-black tree whose inspected path has at most 5 nodes (6 in the thorough run), every key', UF, ['util/rbtree.h'], [('find, minGE, maxLE, minimum, maximum, next, prev', 'util/rbtree.h')])
T('T02', 'Insertion and removal keep the tree ordered, balanced and complete',
  'Inserting a key into, or removing a key from, any red-black tree leaves a red-black tree (black root, no red child of a red node, equal black heights, consistent parent links) '
  'whose contents are the old contents plus or minus that key, with the right count; a removed node is released once.',
  ['inputs', 'histories'], 'every red-black tree whose changed path has at most 6 nodes (7 in the thorough run), every key', UF, ['util/rbtree.h'], [('insert, remove, rotations, fixups', 'util/rbtree.h')])
T('T03', 'Copies of trees are independent, exchanges complete, storage follows',
  'Copying, assigning and swapping trees gives the contents of the source, independent of it, in the destination arena; clearing and destruction release every node once, to '
  'the arena it came from.', ['inputs', 'histories'], 'trees of 0 to 4 keys built in every insertion order', UF, ['util/rbtree.h', 'util/allocator.h'], [('copy, assignment, swap, clear, destructor', 'util/rbtree.h')])
T('A01', 'Arena blocks are valid, aligned, separate and live long enough',
  'Every block handed out by an arena has at least the requested size, is aligned for any object, overlaps no other live block of this or another arena, '
  'and stays valid while further blocks are taken or returned and while arenas are exchanged, until its arena is destroyed; the arena then returns all its memory.',
  ['inputs', 'histories'], 'every block size, sequences of up to four allocations with returns and exchanges in between', UF, ['util/allocator.h', 'util/allocator.cpp'], [('allocate, swap, destructor', 'util/allocator.cpp')])
T('A02', 'Memory accounting is exact and the memory limit is enforced',
  'The usage of an arena is the rounded sum of its live blocks and returns to its old value when a block is returned; the reserve covers the usage; the global usage is the sum of the reserves, '
  'the global maximum never decreases and is a usage that occurred; the process ends exactly when the configured limit is exceeded.',
  ['inputs', 'histories'], 'every block size and limit, sequences of up to four allocations', UF, ['util/allocator.h', 'util/allocator.cpp'], [('accounting', 'util/allocator.cpp')])
T('A03', 'Objects with their own arena copy, exchange and collect without change',
  'An object that carries its own arena keeps its contents when it is copied, assigned, exchanged or collected; copies do not depend on the original; collecting never enlarges it; '
  'every arena is returned.', ['inputs', 'histories'], 'contents of 0 to 3 arbitrary elements, arbitrary garbage', UF, ['util/allocator.h'], [('GC, AllocatorPtr', 'util/allocator.h')])
T('I01', 'Integer arithmetic yields the exact result',
  'Reading, copying, assigning, moving, negating, adding, subtracting, multiplying, exact division and greatest common divisor give exactly the mathematical value, '
  'in place or into another number, and leave the operands unchanged.', ['inputs'], 'every pair of integers of any length', UF, ['util/integer.h', 'util/integer.cpp'], [('Integer', 'util/integer.cpp')])
T('I02', 'Integer predicates answer about the value',
  'Tests for zero, one and plus or minus one, the sign, divisibility and the size norm agree with the value, also after negation.', ['inputs'], 'every integer', UF,
  ['util/integer.h'], [('predicates', 'util/integer.h')])
T('I03', 'Limbs of an integer live in its arena and have room for the result',
  'Before every operation the destination has as many limbs as the result can need, so the big-number library never resizes memory of an arena; limbs are returned exactly once, '
  'to the arena they came from and with the size that was taken, also after moves and exchanges between arenas, and are never shared.', ['inputs', 'histories'],
  'every pair of integers, two arenas', 'An undersized block is only noticed when a carry or a long product occurs and a misplaced release only changes a counter.', ['util/integer.h', 'util/integer.cpp'],
  [('reallocate, move, destructor', 'util/integer.cpp')])
T('I04', 'A printed integer is the number in the requested base',
  'The printed text denotes the number in the requested base, zero included, whatever its length and whatever was printed before; the shared buffer always has room and is released when it is replaced.',
  ['inputs', 'histories'], 'every integer and base, sequences of four prints', UF, ['util/integer.cpp'], [('get_str', 'util/integer.cpp')])
T('H01', 'Binomial polynomials and their combinations have exact coefficients',
  'The polynomial set to a binomial has exactly the coefficients of binomial(s+a, b) and none above, replacing old contents; sums, differences and multiples are exact coefficientwise and leave the operand unchanged.',
  ['inputs'], 'every argument a and multiplier, b up to 4', UF, ['util/hilbertpoly.h', 'util/hilbertpoly.cpp'], [('HilbertPoly', 'util/hilbertpoly.cpp')])
T('H02', 'Rational coefficients are initialised and released exactly once',
  'Every rational is initialised before it is used and cleared exactly once; coefficient arrays, temporaries and text buffers are released; texts fit their buffer.', ['inputs', 'histories'],
  'degrees 0 to 2 and every construction order', 'A leaked rational changes no value.', ['util/hilbertpoly.h', 'util/hilbertpoly.cpp'], [('constructors, binomial, destructor', 'util/hilbertpoly.cpp')])
T('U01', 'A timer accumulates exactly the time between start or resume and stop',
  'User, system and real time are each the sum, in seconds, of the clock differences between a start or resume and the following stop; time between laps does not count; a start resets.',
  ['inputs', 'histories'], 'every sequence of clock readings', 'The clock cannot be controlled by a test.', ['util/timer.h', 'util/timer.cpp'], [('start, cont, stop', 'util/timer.cpp')])
T('R01', 'A shuffle always yields a permutation and can yield every one equally',
  'After construction and after every shuffle the object holds each index once; over the possible draws each permutation of the indices arises exactly once.', ['inputs', 'schedules'],
  'sizes 1 to 4 and every outcome of the random draws', 'Tests draw a few random shuffles.', ['util/randpermutation.h', 'util/randpermutation.cpp'], [('next', 'util/randpermutation.h')])
T('R02', 'Random and permuted monomials are monomials of the requested kind',
  'A random monomial has the requested number of variables, a degree within the requested range that is the sum of its exponents, and the component of its object (none for a new one); '
  'every monomial of the allowed degrees can be drawn; a second initialisation takes full effect and leaks nothing. Permuting a monomial rearranges its exponents by the permutation and keeps degree, component and argument.',
  ['inputs', 'schedules'], '1 to 3 variables, degrees 1 to 3 and every outcome of the draws; permutations of 1 to 4 variables, exponents arbitrary', 'Tests and benchmarks draw a few random monomials and never check which can occur.',
  ['ginv/monom.h', 'ginv/monom.cpp', 'util/randpermutation.h'], [('rand_init, rand_next', 'ginv/monom.cpp'), ('permutation', 'ginv/monom.h')])
T('O01', 'The printed form of an object denotes the object',
  'A monomial prints as its exponents in order in square brackets, preceded by component and colon if it has one; a polynomial as monomial*coefficient for each term in order joined by " + ", or 0; '
  'a marked monomial as itself, its ancestor and one mark per non-multiplicative variable; a Hilbert polynomial as its non-zero coefficients with the powers of s, descending, joined by " + " or " - "; a permutation as its images.',
  ['inputs', 'configurations'], '1 to 3 variables, 0 to 3 terms, Hilbert polynomials of dimension 0 to 2, permutations of 1 to 4; exponents, components and coefficients arbitrary', 'No test looks at printed text.',
  ['ginv/monom.cpp', 'ginv/poly_int.cpp', 'ginv/wrap.cpp', 'util/hilbertpoly.cpp', 'util/randpermutation.cpp'], [('operator<<', 'ginv/monom.cpp'), ('operator<<', 'ginv/poly_int.cpp'), ('operator<<', 'util/hilbertpoly.cpp')])
PF = ['ginv/poly_int.h', 'ginv/poly_int.cpp', 'ginv/poly.h']
T('Q01', 'Polynomials stay in canonical form',
  'After every polynomial operation the terms strictly descend in the polynomial\'s order, no stored coefficient is zero, the degree kept with each term is that of its exponents, '
  'and the length and the zero test agree with the terms.', ['inputs'], 'polynomials of 0 to 3 terms with arbitrary exponents and coefficients, also with overlapping and cancelling terms', UF, PF,
  [('add, sub, mult, pow, reduction, pp', 'ginv/poly_int.cpp')])
T('Q02', 'Polynomial addition, subtraction, multiplication and powers are exact',
  'The coefficient of every monomial in a sum, difference, negation, product, scalar multiple, power, prolongation, copy, move or exchange is that of the mathematical operation, also when an operand is '
  'zero, constant or the object itself; other operands keep their value, the order travels with the terms, degree, leading term, largest component and norm are those of the terms.',
  ['inputs', 'configurations'], 'polynomials of 0 to 3 terms with arbitrary exponents and coefficients; all six orders on module terms', UF, PF, [('add, sub, mult, pow', 'ginv/poly_int.cpp')])
T('Q03', 'A reduction step cancels the term and stays in the ideal',
  'Reducing the head of p, or the term of p equal to the head of q, by q replaces p by (b/g) p - (a/g) m q, where a and b are the coefficients of the two terms, g their greatest common divisor and m the '
  'quotient monomial; a term of another component or monomial is left alone, and q is unchanged.', ['inputs', 'configurations'],
  'polynomials of 1 to 3 terms with arbitrary exponents and coefficients, cancelling terms included; all six orders on module terms', UF, PF, [('reduction, redMaybe', 'ginv/poly_int.cpp')])
T('Q04', 'The primitive part has coprime coefficients and the same zero set',
  'Making a polynomial primitive divides all coefficients by their greatest common divisor and keeps every monomial; a primitive polynomial keeps its value, and the primitivity test answers whether the '
  'coefficients are coprime.', ['inputs'], 'polynomials of 0 to 3 terms with arbitrary content and coprime cofactors', UF, PF, [('pp, isPp', 'ginv/poly_int.cpp')])
T('Q05', 'Polynomial storage is valid, owned by one arena and released once',
  'Term nodes, exponent blocks and coefficient limbs of a polynomial are alive whenever they are used, are taken from and returned to the arena of the polynomial exactly once with the size that was requested, '
  'and temporaries of an operation are returned before it ends; operands may share an arena, use different arenas or be the same object.', ['inputs', 'histories'],
  'all operations on polynomials of 0 to 3 terms', 'A leaked or misplaced block changes no value a test reads.', PF, [('PolyInt', 'ginv/poly_int.cpp'), ('List', 'util/list.h')])
T('Q06', 'Normal forms have no reducible term and differ by reductions only',
  'Reducing a polynomial against a collection of reductors ends with no head (or no tail term) that a reductor divides, the result is the one given by the rewriting, the reported number of reductions is the number '
  'performed, irreducible polynomials and zero are left alone, and the normal-form test answers whether a tail term is reducible; a reductor is an independent copy that keeps its value when its memory is collected.',
  ['inputs'], 'collections of up to two reductors with arbitrary tail coefficients against polynomials of up to four terms with arbitrary coefficients', UF, PF + ['ginv/janet.h'],
  [('nf, nfTail, isNf', 'ginv/poly_int.h'), ('WrapPolyInt', 'ginv/poly_int.h')])
JF = ['ginv/janet.h', 'ginv/janet.cpp', 'ginv/wrap.h']
T('J01', 'The Janet tree finds exactly the Janet divisor',
  'For any set of monomials entered one after another, none of which had a Janet divisor when it was entered, searching a monomial returns the entered monomial that divides it with all excess variables '
  'multiplicative in the sense of Janet, and nothing when there is none.', ['inputs', 'histories'], 'sets of 0 to 3 monomials with arbitrary exponents in 1 or 2 variables, up to 2 in 3 variables, every insertion order, every query', UF, JF, [('find, insert', 'ginv/janet.cpp')])
T('J02', 'Non-multiplicative variables are those of the Janet division',
  'After every insertion a variable is marked non-multiplicative for an entered monomial exactly when another entered monomial agrees with it in all earlier variables and exceeds it in this one.',
  ['inputs', 'histories'], 'sets of 1 to 3 (thorough: 4) monomials with arbitrary exponents in 1 to 3 variables, every insertion order', UF, JF, [('insert, setNM', 'ginv/janet.cpp')])
T('J03', 'Copied, exchanged and collected Janet trees answer alike and own their nodes',
  'A copy, a copy of a copy, an exchanged or a collected tree has the same size and answers every search as the original did; inserting into a copy leaves the original alone; all nodes are returned to the arena they came from.',
  ['inputs', 'histories'], 'trees of up to 2 arbitrary monomials and a fixed wide tree of 7', UF, JF, [('build, clear, swap', 'ginv/janet.cpp')])
T('J04', 'Tree entries keep monomial, ancestor and marks consistent',
  'A new entry is its own ancestor without marks; a prolongation multiplies by its variable, inherits the ancestor and marks the variable as tried in the source only; copies carry everything; an update to a different monomial '
  '(exponents or component) resets ancestor and marks, an update to the same monomial changes nothing; the number of multiplicative variables is that of the unmarked ones.',
  ['inputs', 'histories'], 'arbitrary monomials in 1 to 3 variables, arbitrary components, every variable and mark', UF, ['ginv/wrap.h', 'ginv/wrap.cpp'], [('Wrap', 'ginv/wrap.h')])
T('J05', 'The forest by ancestor degree searches classes in order with their exclusions',
  'An entered monomial is excluded from a variable exactly when a monomial of a lower class first exceeds it there or its own class does by the Janet rule; a search returns the allowed divisor of the lowest class; the forest grows with the degree without losing entries.',
  ['inputs', 'histories'], 'up to 2 monomials of arbitrary exponents, degrees below and above the initial capacity', UF, ['ginv/gb.h', 'ginv/gb.cpp', 'ginv/janet.cpp'], [('find, insert', 'ginv/gb.cpp'), ('setMNprec', 'ginv/janet.cpp')])
T('J06', 'The completion list is sorted, duplicate-free and marked by its order',
  'Pushing monomials keeps the list strictly ascending in its comparison with every monomial once; a variable is non-multiplicative for an element exactly when a later element first exceeds it there; a search returns the first involutive divisor.',
  ['inputs', 'histories', 'configurations'], 'up to 3 monomials with arbitrary exponents in 1 to 3 variables, three orders', UF, ['ginv/mcompletion.h', 'ginv/mcompletion.cpp'], [('insert, find', 'ginv/mcompletion.cpp')])
T('J07', 'A completed monomial set is involutive and spans the same ideal',
  'After completion every non-multiplicative prolongation of an element has an involutive divisor, the generators are still there, every element is a multiple of its ancestor, which is a generator, and a monomial has an involutive divisor exactly '
  'when a generator divides it; the list and the tree form agree on this.', ['inputs', 'configurations'], 'all pairs of generators with exponents up to 3 (one variable), 2 (two variables), 1 (three variables); three orders', UF,
  ['ginv/mcompletion.h', 'ginv/mcompletion.cpp', 'ginv/janet.cpp'], [('build, prolong', 'ginv/mcompletion.cpp')])
T('J08', 'The Hilbert polynomial of a tree counts the monomials outside its cones',
  'The polynomial reported for a tree is binomial(s+n, n) minus, for every entry of degree d with m multiplicative variables, binomial(s-d+m, m).', ['inputs'], 'trees of 1 or 2 monomials with arbitrary exponents in 1 to 3 variables', UF,
  JF + ['util/hilbertpoly.h'], [('buildHP', 'ginv/janet.cpp')])

GF = ['ginv/poly_int.h', 'ginv/poly_int.cpp', 'ginv/wrap.h', 'ginv/janet.cpp']
UG = 'The tests run the completions on a handful of systems and check that they end; which prolongation is dropped, or which polynomial disappears, depends on coefficients and on the order in which reductions succeed.'
GM = [('JanetPolyInt::algorithm*', 'ginv/poly_int.cpp')]
QG = 'systems of 0 to 3 generators with the listed leading monomials in 1 to 3 variables and up to 3 components, all coefficients, lower terms and outcomes of reductions with at most one (thorough: two) non-zero remainder'
T('G01', 'Completion loses no polynomial',
  'Whichever of the four completion algorithms runs: when it ends and the result is not the unit ideal, every generator and every non-zero remainder obtained on the way is either an element of the basis or has itself been reduced further, and its leading monomial has a divisor among the leading monomials of the basis.', ['inputs', 'histories'], QG, UG,
  GF, GM + [('insert', 'ginv/poly_int.cpp'), ('push', 'ginv/poly_int.h')])
T('G02', 'A finished basis is closed under non-multiplicative prolongation',
  'When a completion ends, every product of a basis element with one of its non-multiplicative variables has a Janet divisor in the basis, and unless a criterion shows it superfluous (in the ring: degree at least the sum of the degrees of the two ancestors; anywhere: degree above that of the ancestors\' least common multiple) it has been reduced or is itself an element.', ['inputs', 'histories'], QG, UG,
  GF, [('prolong', 'ginv/poly_int.cpp'), ('pending', 'ginv/poly_int.cpp'), ('setBuild', 'ginv/wrap.h')])
T('G03', 'The finished basis is ordered, indexed and marked consistently',
  'When a completion ends: elements are in strictly ascending order; each entry carries the leading monomial of its polynomial and an ancestor that divides it; looking up an element\'s leading monomial finds that element; an entry\'s non-multiplicative marks are those of Janet\'s rule on the final set; size() counts the elements.', ['inputs', 'histories'], QG, UG,
  GF, [('insert', 'ginv/poly_int.cpp'), ('find', 'ginv/poly_int.h'), ('update', 'ginv/wrap.cpp')])
T('G04', 'The unit ideal is recognised exactly when a constant is obtained',
  'A completion in the polynomial ring reports the unit ideal if and only if a non-zero constant is among the generators or appears as a remainder; module elements of degree zero are not units; a unit ideal has one element that divides everything, and stays the unit ideal when more generators are pushed.', ['inputs', 'histories'], QG, UG,
  GF, [('setOne', 'ginv/poly_int.cpp'), ('isOne', 'ginv/poly_int.h')])
T('G05', 'A basis contains nothing but consequences of the generators',
  'Every polynomial that a completion reduces, reduces with, or puts into the basis is a generator, a monomial multiple of a polynomial already obtained, or the remainder of a head reduction of such polynomials in which the head is divisible and the components agree; no element of the basis is zero.', ['inputs', 'histories'], QG, UG,
  GF, GM + [('nf', 'ginv/poly_int.h'), ('find', 'ginv/poly_int.h')])
T('G06', 'Basis elements are primitive and their tails have been reduced',
  'When a completion ends, the content of every element has been removed after the last change to the element, and every element\'s tail has been reduced after the last smaller element entered the basis.', ['inputs', 'histories'], 'systems of two generators, one after another or at once; at most one tail actually changes and at most one remainder is non-zero', UG,
  GF, GM + [('nfTail', 'ginv/poly_int.h'), ('pp', 'ginv/poly_int.cpp')])
T('G07', 'Completions use and release memory correctly',
  'Throughout any completion and the destruction of its result no entry, list node, tree node, exponent block or limb block is used after release, released twice, released to a foreign arena, or left behind, whether or not arenas are collected on the way.', ['inputs', 'histories'], QG, UG,
  GF + ['util/allocator.h', 'util/list.h'], GM + [('~JanetPolyInt', 'ginv/poly_int.h'), ('setOne', 'ginv/poly_int.cpp'), ('reallocate', 'ginv/poly_int.h')])
T('G08', 'The Hilbert polynomial of a finished ideal basis',
  'For a finished, non-unit basis of an ideal in n variables the reported polynomial is binomial(s+n, n) minus, for every element of degree d with m multiplicative variables, binomial(s-d+m, m).', ['inputs', 'histories'], 'bases from two generators in 1 to 3 variables', UG,
  GF + ['util/hilbertpoly.h'], [('buildHP', 'ginv/poly_int.cpp')])
T('G09', 'Generators may be added after a completion',
  'After a completion more generators may be pushed, also with components not seen before or equal to or dividing existing elements, and a second completion loses none of the old and new polynomials and is again closed under non-multiplicative prolongation.', ['inputs', 'histories'], 'one or two generators, a completion, up to two more generators, a second completion; up to 3 components', UG,
  GF, [('setPos', 'ginv/poly_int.cpp'), ('push', 'ginv/poly_int.h'), ('pending', 'ginv/poly_int.cpp')])
T('G10', 'The public normal form is complete and leaves the basis alone',
  'After a completion the normal form of a polynomial is zero or has a leading monomial no leading monomial of the basis divides, its tail has been looked at against the whole basis and its content removed; '
  'a polynomial with an irreducible leading monomial keeps it, in the unit ideal the result is zero, a component beyond the highest of the basis and an object without a completion reduce nothing. '
  'The basis is the same afterwards. The highest component, the tree of each component and its size agree with the basis.',
  ['inputs', 'histories'], 'systems of one or two generators in the ring and in modules, three algorithms, every leading monomial up to degree one or two in each variable, every outcome of the reductions (bounded number of non-zero ones)',
  'Tests never compute a normal form of a chosen polynomial.', ['ginv/poly_int.h', 'ginv/poly_int.cpp'], [('JanetPolyInt::nf, find, janet, maxPos', 'ginv/poly_int.h')])
T('D01', 'No internal assertion fails on valid use',
  'Compiled with its assertions, no valid sequence of public operations makes the library abort: not on zero numbers and polynomials, degree-zero module elements, '
  'empty containers, equal leading monomials or any order in which a completion chooses its elements. In particular the working lists of a completion stay sorted, '
  'the basis stays sorted, interreduced and primitive at every step, and the search tree stays well formed.',
  ['inputs', 'histories'], 'the client programs of all other properties: shapes bounded as there, numbers, exponents and, for the completions, the outcome of every reduction unbounded',
  'The tests run only the build without assertions, and on a few systems.', ['ginv/poly_int.cpp', 'ginv/janet.cpp', 'ginv/poly_int.h', 'util/list.h', 'util/rbtree.h', 'util/integer.cpp'],
  [('assertSort, assertT and every other assertion', 'ginv/poly_int.cpp'), ('insert, find', 'ginv/janet.cpp')])
# ---- the Python layer --------------------------------------------------------------------------------------------------
PYT = 'The two stable Python tests run a few fixed products and sums; they fix no result for other exponents, components, coefficients or orders.'
T('Y01', 'pyginv monomials compute exactly, in the ring and in modules',
  'Product, quotient, power, prolongation, copy, lcm, gcd, degree, component, divisibility (plain and strict), first exceeded variable, equality, hash, truth value, enumeration of a degree and list of variables of a pyginv Monom are the specified functions of exponents and component; the module component survives every operation; operands never change; init and the constructors give the variables and unit vectors.',
  ['inputs'], 'arbitrary exponents, every component, 1 to 3 variables and up to 2 functions', PYT, ['pyginv/monomial.py'], [('Monom', 'pyginv/monomial.py')])
T('Y02', 'pyginv monomial orders are the four documented orders',
  'POTlex, TOPlex, POTdeglex and TOPdeglex compare any two monomials (ring or module) by component and exponents as documented, are antisymmetric, answer 0 exactly for equal monomials, and <, <=, >, >= follow the order in force.',
  ['inputs'], 'arbitrary exponents, every pair of components, 1 to 3 variables', PYT, ['pyginv/monomial.py'], [('lex, deglex, POT*, TOP*', 'pyginv/monomial.py'), ('__lt__ ... __ge__', 'pyginv/monomial.py')])
T('Y03', 'pyginv polynomials stay in canonical form',
  'After every public operation of Poly, PolyDiff and PolySchem the terms strictly descend in the order in force, no coefficient is zero, equal monomials are merged and the result has the class of its operands; valid use raises no exception.',
  ['inputs'], 'operands of up to 3 terms with arbitrary exponents and coefficients, numbers 0, 1 and arbitrary, both operand positions, four orders', PYT,
  ['pyginv/polynomial.py'], [('__add__, __sub__, __mul__, __pow__, mult, prolong, diff', 'pyginv/polynomial.py')])
T('Y04', 'pyginv polynomial arithmetic is exact',
  'Sum, difference, product, quotient by a number, power, negation, scaling, product with a term, and all of them with a number on either side give exactly the mathematical result; lm, lc, find and cmp answer for the first term; the operands keep their values.',
  ['inputs'], 'operands of up to 3 terms with arbitrary exponents and coefficients that may cancel', PYT, ['pyginv/polynomial.py'], [('arithmetic operators', 'pyginv/polynomial.py')])
T('Y05', 'Changing a pyginv result never changes an operand',
  'The polynomial returned by any operation shares no term with its operands: in-place reduction, content removal or changes of the result leave them as they were.',
  ['inputs', 'histories'], 'operands of up to 2 terms, each operator followed by any in-place change of the result', 'Tests print results immediately and never modify them.', ['pyginv/polynomial.py'], [('__pos__, __neg__, __add__, __sub__', 'pyginv/polynomial.py')])
T('Y06', 'A pyginv reduction step removes the term it is told to',
  'reduction and redRat of the i-th term by a polynomial whose leading monomial divides it give, up to a non-zero factor, the polynomial minus the multiple of the reductor that cancels that term; S gives the combination of the two multiples in which the leading terms cancel; the reductor is unchanged and the result canonical.',
  ['inputs'], 'polynomials of up to 3 terms, arbitrary exponents and coefficients, ring and module', PYT, ['pyginv/polynomial.py'], [('reduction, redRat, reduce, S', 'pyginv/polynomial.py')])
T('Y07', 'pyginv normal forms are irreducible and equivalent to the input',
  'NFhead, NFtail and NF leave no leading (respectively lower, respectively any) monomial that the set of reductors divides, and the result is a non-zero multiple of the input minus multiples of the reductors.',
  ['inputs'], 'up to 3 terms with monomials from a finite box, up to 2 reductors, arbitrary coefficients', PYT, ['pyginv/polynomial.py'], [('NFhead, NFtail, NF', 'pyginv/polynomial.py')])
T('Y08', 'pyginv content removal divides by exactly the content',
  'pp and cancel divide every coefficient by the common content, leave the polynomial otherwise equal up to a non-zero factor, and the result has content one.',
  ['inputs'], 'up to 3 arbitrary coefficients, whole numbers and expressions', PYT, ['pyginv/polynomial.py'], [('pp, cancel', 'pyginv/polynomial.py')])
T('Y09', 'Derivations and shifts act as derivations and shifts',
  'For differential polynomials, prolong and diff are the total derivative (coefficients included, Leibniz rule), for difference polynomials the shift; df, T and diff2poly turn derivatives, shifts and linear expressions of the algebra system into the polynomial they denote; normal forms use these prolongations.',
  ['inputs'], 'up to 3 terms, coefficients that depend on every variable, up to 2 variables and 2 functions', 'The differential layer has no stable test.', ['pyginv/polynomial.py', 'pyginv/monomial.py'],
  [('PolyDiff, PolySchem', 'pyginv/polynomial.py')])
T('Y10', 'Printed pyginv monomials and polynomials denote the object',
  'The text forms (plain, derivative, shift, LaTeX) of a monomial or polynomial, read back by the rules of the notation, give exactly its exponents, component and coefficients; zero prints as 0.',
  ['inputs'], 'up to 3 terms, exponents 0 to 3, arbitrary coefficients', PYT, ['pyginv/monomial.py', 'pyginv/polynomial.py'], [('__str__, latex, df, T, ...', 'pyginv/monomial.py'), ('__str__', 'pyginv/polynomial.py')])
T('Y11', 'pyginv basis entries keep monomial, ancestor and marks; criteria are sound',
  'A Wrap names the leading monomial and ancestor of its polynomial; a prolongation keeps the ancestor and is marked once; update resets marks and ancestor exactly when the leading monomial changed; refresh inherits a smaller ancestor; crit1 holds only for ring elements with coprime ancestors, crit2 only when a smaller common multiple of the ancestors exists, neither for differential polynomials; the order of entries is that of leading monomials.',
  ['inputs', 'histories'], 'arbitrary monomials and ancestors in 1 to 3 variables', 'No stable test looks at an entry.', ['pyginv/janet.py'], [('Wrap', 'pyginv/janet.py')])
T('Y12', 'pyginv Janet trees and forests answer as Janet\'s definition says',
  'After any insertions the tree holds the inserted elements minus those a new one replaces (which are given back), marks as non-multiplicative exactly Janet\'s variables, finds for each monomial the one element that divides it in the Janet sense, counts, enumerates, names the lowest degree to prolong and returns every open prolongation of a degree or up to a monomial exactly once, marking it; the caching tree gives the same divisors multiplied up; a forest does all this per component.',
  ['inputs', 'histories'], 'up to 3 elements from boxes of exponents in 1 to 3 variables, every order of entry, every looked-up monomial of the next larger box', 'No stable test builds a tree.', ['pyginv/janet.py'], [('Janet, JanetCache, Forest', 'pyginv/janet.py')])
T('Y13', 'pyginv Hilbert polynomials count the complement of the ideal',
  'HP of a tree is binomial(s+n, n) minus, for each element of degree d with m multiplicative variables, binomial(s-d+m, m), summed over the components of a forest; its value and its coefficients agree; CombRepet counts multisets.',
  ['inputs'], 'up to 3 elements in 1 to 3 variables, arbitrary argument', 'No stable test computes one.', ['pyginv/janet.py'], [('CombRepet, HP', 'pyginv/janet.py')])
T('Y14', 'pyginv completions lose nothing and close the basis',
  'When ginvMin or ginvBlockLow ends, every generator and remainder is a consequence of the basis and has a divisor there, every non-multiplicative prolongation has a divisor and was reduced or is superfluous by a sound criterion, only consequences of the generators were used, and entries, marks, ancestors, lookup, size and reduced basis agree; the mutual reduction of what is about to enter loses nothing.',
  ['inputs', 'histories'], '22 systems of two or three generators in 1 to 3 variables, ring and module, four orders; every outcome of every reduction with at most two non-zero remainders of degree at most 1 to 3', 'No stable test completes a system.',
  ['pyginv/ginv.py', 'pyginv/janet.py'], [('ginvMin, ginvBlockLow', 'pyginv/ginv.py'), ('reduceAll, reduceMinDegree, autoReduce', 'pyginv/ginv.py')])
T('Y15', 'pyginv bases are primitive and tail-reduced when a completion ends',
  'When a completion ends, the content of every element has been removed after its last change, and its tail has been reduced after the last smaller element entered.',
  ['inputs', 'histories'], '8 systems, at most one non-zero remainder and one changed tail', 'No stable test completes a system.', ['pyginv/ginv.py'], [('ginvMin, ginvBlockLow', 'pyginv/ginv.py'), ('NFtail, pp', 'pyginv/polynomial.py')])
T('Y16', 'pyginv completions can be continued and do not depend on printing or caching',
  'A second call with more generators on the same tree, printing, the caching tree, derivation and difference polynomials all keep the guarantees of Y14.',
  ['inputs', 'histories'], 'systems of one or two generators with up to two more', 'No stable test completes a system.', ['pyginv/ginv.py', 'pyginv/janet.py'], [('ginvMin, ginvBlockLow', 'pyginv/ginv.py'), ('JanetCache', 'pyginv/janet.py')])
T('Z01', 'The Cython binding answers what the library computes',
  'In the module built from cython/ginv.pyx every operation answers the value of the library operation it stands for: monomial product, quotient, power, divisibility, exponents, component, comparisons, permutation; '
  'polynomial sum, difference, product and power, also with integers on either side, negative, terms, leading monomial and coefficient, order, content; basis generators, completion, size, elements, divisor, normal form, '
  'counters, Hilbert polynomial, tree of a component; timers report their own times. Operands keep their values, and texts show the value.',
  ['inputs'], 'all exponents, coefficients, components and integers; two or three variables, up to two terms and two elements', 'No stable test uses the binding beyond importing it.', ['cython/ginv.pyx'],
  [('const_monom, monom', 'cython/ginv.pyx'), ('const_poly_int, poly_int', 'cython/ginv.pyx'), ('janet_poly_int, wrap_poly_int, const_janet', 'cython/ginv.pyx')])
T('Z02', 'No Python call breaks a precondition of the C++ library',
  'Every method of the binding, called on any object Python can make (also one without contents) with any arguments other than None, answers or raises an exception; it never reaches the library with a null object, an index, variable or '
  'component out of range, operands of different numbers of variables or orders, a zero polynomial where a leading term is needed, an empty tree, a generator that was not initialised, or a read-only object to be changed.',
  ['inputs'], 'every method of the binding; all integers as indexes and sizes; arguments with and without contents, of other orders and numbers of variables', 'No stable test uses the binding beyond importing it.', ['cython/ginv.pyx'],
  [('all classes', 'cython/ginv.pyx')])
T('Z03', 'Objects handed to Python stay valid, and everything made is released',
  'A monomial, coefficient, polynomial, basis element, tree or timer obtained through the binding can be used for as long as Python holds it, whatever happened to the object it was taken from (other than a change of its value); '
  'results live in their own arena; once nothing is held, every C++ object has been released, and before its arena.',
  ['inputs', 'histories'], '16 routes over one to three steps; every operation of Z01', 'No stable test uses the binding beyond importing it.', ['cython/ginv.pyx'],
  [('const_monom, const_integer, const_poly_int, wrap_poly_int, const_janet, const_timer', 'cython/ginv.pyx'), ('__dealloc__', 'cython/ginv.pyx')])
