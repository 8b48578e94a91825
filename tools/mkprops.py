import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
TS='codon/parser/visitors/typecheck/'
p('C01','Constant folding never changes what a program computes',
 'Whenever the optimizer replaces an arithmetic, comparison, logical or conversion operation on literal operands by a literal, that literal is exactly what the operation would have produced at run time under the numerics mode in force (C or Python). Operations whose run-time outcome is an exception, or that involve operands whose evaluation has effects, are left in place rather than folded away. Folding itself never crashes, whatever the literal values are.',
 ['inputs','programs'],'all 64-bit integer, float and bool literal operands, all foldable operators, both numerics modes',
 'The tests fold a handful of literals; boundary literals (most negative integer, zero divisors, huge shifts, NaN) are never tried.',
 ['codon/cir/transform/folding/const_fold.cpp','codon/cir/transform/folding/rule.h','codon/cir/util/irtools.cpp','stdlib/internal/types/int.codon','stdlib/internal/types/float.codon','stdlib/internal/types/bool.codon','stdlib/internal/pynumerics.codon'],
 [('registered folding rules','codon/cir/transform/folding/const_fold.cpp:FoldingPass::registerStandardRules'),('rule base classes','codon/cir/transform/folding/rule.h'),('run-time operations','stdlib/internal/types/int.codon')],
 ['the literal substituted for the operation'])
p('C02','Canonicalization only rewrites expressions into equivalent ones',
 'Reassociating, reordering, distributing and strength-reducing integer arithmetic and comparisons during cleanup yields an expression with the same value for every value of its variables, and never reorders operands whose evaluation can have effects or applies an identity that holds only for another type. A sum, difference or product is only combined when the combined form is equal in 64-bit arithmetic.',
 ['inputs','programs'],'all operand values and all expression shapes the pass matches',
 'Existing tests compare a few rewritten shapes; they do not evaluate both sides over all operand values.',
 ['codon/cir/transform/cleanup/canonical.cpp','codon/cir/transform/folding/rule.h','codon/cir/util/irtools.cpp'],
 [('canonicalization rules','codon/cir/transform/cleanup/canonical.cpp'),('commutative/associative operator tables','codon/cir/transform/cleanup/canonical.cpp')],['the replacement expression'])
p('C03','Compile-time evaluated expressions equal their run-time value',
 'An operator applied to compile-time (Literal) integers, booleans or strings evaluates during type checking to exactly the value the same operator gives at run time on those operands, including floor division and modulo with negative operands. Division by zero at compile time is reported as an error, and no operand values crash the compiler.',
 ['inputs'],'all 64-bit integers, both booleans and all strings as operands of every operator',
 'Static evaluation is exercised by no unit test in this tree; a sample cannot cover sign combinations and boundary values.',
 [TS+'op.cpp','stdlib/internal/types/int.codon'],
 [('static unary evaluation',TS+'op.cpp:evaluateStaticUnary'),('static binary evaluation',TS+'op.cpp:evaluateStaticBinary')],['the static value of the expression'])
p('C04','Indexing and slicing follow Python for every index, bound and step',
 'For every length and every start, stop and step (present or absent, negative, zero or far out of range), slicing a sequence selects exactly the elements Python selects, both for run-time sequences and for compile-time slices of tuples and strings. Negative indices count from the end, and an out-of-range index is rejected with an index error rather than reading outside the sequence.',
 ['inputs'],'all lengths, all 64-bit start/stop/step combinations',
 'Bounds arithmetic must hold for all integers; tests sample a few small slices and never mix boundary values.',
 ['stdlib/internal/types/slice.codon','stdlib/internal/types/collections/list.codon','stdlib/internal/types/str.codon',TS+'op.cpp'],
 [('run-time bound adjustment','stdlib/internal/types/slice.codon:adjust_indices'),('compile-time bound adjustment',TS+'op.cpp:sliceAdjustIndices'),('compile-time index translation',TS+'op.cpp:translateIndex')],
 ['the selected elements','IndexError'])
p('C05','range() and counted loops visit exactly the arithmetic progression',
 'A range visits start, start+step, ... and stops before passing the stop value, for every start, stop and non-zero step; its length, indexing and membership test agree with the values it yields. Turning a loop over a range into a counted loop preserves the sequence of values the body sees, including descending and empty ranges. A zero step is an error.',
 ['inputs','programs'],'all 64-bit start/stop/step values and loop bodies',
 'Existing tests run one lowering example; signs, empty ranges and extreme values are unexplored.',
 ['stdlib/internal/types/range.codon','codon/cir/transform/lowering/imperative.cpp'],
 [('range methods','stdlib/internal/types/range.codon'),('range-loop lowering','codon/cir/transform/lowering/imperative.cpp')],['values seen by the loop body','len, in, []'])
p('C06','Software float conversions are correctly rounded for every bit pattern',
 'Converting between bfloat16, half, single, double and quadruple precision in the bundled float support library returns the IEEE-754 correctly rounded result (round to nearest, ties to even) for every input: normals, subnormals, zeros, infinities and NaNs. Widening is exact, keeps the sign, and maps NaNs to NaNs.',
 ['inputs'],'every bit pattern of the source format',
 'The input space is up to 2^128 bit patterns; no test in the tree calls these routines.',
 ['codon/runtime/floatlib'],
 [('narrowing','codon/runtime/floatlib/fp_trunc_impl.inc'),('widening','codon/runtime/floatlib/fp_extend_impl.inc')],['returned bit pattern'])
p('C07','Exception tables are decoded exactly and the right handler is chosen',
 'When an exception unwinds through compiled code, variable-length and encoded values of the language-specific data area decode to exactly the values the encoding standard defines, whatever their width and encoding. The handler selected is the one whose call-site range covers the faulting address and whose type filter matches the thrown type, and cleanup-only sites never catch.',
 ['inputs'],'all byte sequences that are valid encodings, all table layouts and exception types',
 'The runtime personality routine is compiled but called by no test.',
 ['codon/runtime/exc.cpp'],
 [('LEB128 readers','codon/runtime/exc.cpp:readULEB128,readSLEB128'),('encoded pointer reader','codon/runtime/exc.cpp:readEncodedPointer'),('action selection','codon/runtime/exc.cpp:handleActionValue,handleLsda')],['landing pad and selector chosen'])
p('C08','Parallel loops run every iteration exactly once and combine without loss',
 'A statically or dynamically scheduled parallel loop hands every iteration index to exactly one thread, whatever the trip count, chunk size, number of threads or step sign. A reduction starts each thread from the identity of its operator and combines partial results with that same operator, so the outcome equals some ordering of the sequential combination. Schedule clauses select the schedule they name.',
 ['inputs','schedules','configurations'],'all trip counts, chunk sizes, thread counts, reduction operators and element types',
 'Unit tests never run a parallel loop; coverage of chunk arithmetic for all parameters needs a proof.',
 ['codon/cir/transform/parallel/openmp.cpp','codon/cir/transform/parallel/schedule.cpp','stdlib/openmp.codon'],
 [('reduction identities and operators','codon/cir/transform/parallel/openmp.cpp:Reduction'),('schedule parsing','codon/cir/transform/parallel/schedule.cpp'),('chunk loops and atomics','stdlib/openmp.codon')],['iterations executed','reduction result'])
p('C09','Integer arithmetic has its documented value for every operand',
 'Integer operators of every width, signed and unsigned, return the mathematically defined result reduced to the width, with division and remainder following the selected numerics mode (truncating in C mode, flooring in Python mode); bit counting, shifting, comparison, conversion between widths and integer power agree with the mathematical definition. In Python mode a zero divisor raises ZeroDivisionError instead of an undefined result.',
 ['inputs','configurations'],'all operand values at all widths, both numerics modes',
 'The standard library is not executed by the unit tests at all, and boundary values cannot be enumerated.',
 ['stdlib/internal/types/int.codon','stdlib/internal/types/intn.codon','stdlib/internal/pynumerics.codon','stdlib/internal/types/bool.codon','stdlib/internal/types/byte.codon'],
 [('int methods','stdlib/internal/types/int.codon'),('fixed width methods','stdlib/internal/types/intn.codon'),('Python numerics','stdlib/internal/pynumerics.codon')],['operator results'])
p('C10','Every sorting algorithm returns a sorted permutation',
 'Each sorting routine leaves the list a permutation of its input, in non-decreasing key order, for every list and key function, without touching anything outside the list; the stable ones (insertion sort, timsort) keep equal keys in their original order. sorted() and list.sort(), with and without reverse, follow the selected algorithm.',
 ['inputs'],'all lists of any length and any key function yielding a total preorder',
 'Sortedness and permutation for all inputs cannot be settled by samples; deep paths (galloping, pattern breaking, heap fallback) need long adversarial inputs.',
 ['stdlib/algorithms/insertionsort.codon','stdlib/algorithms/heapsort.codon','stdlib/algorithms/qsort.codon','stdlib/algorithms/pdqsort.codon','stdlib/algorithms/timsort.codon','stdlib/internal/sort.codon'],
 [('algorithms','stdlib/algorithms'),('dispatch','stdlib/internal/sort.codon')],['list contents after sorting'])
p('C11','Dictionaries and sets behave as finite maps and sets in any history',
 'After any sequence of insertions, updates, deletions, lookups, resizes and clears, a dict (set) contains exactly the keys and latest values (members) that sequence implies, finds each of them, and finds nothing else, regardless of hash collisions. Operations terminate and never touch memory outside the table.',
 ['histories','inputs'],'all operation sequences and all hash functions',
 'Histories and collision patterns are unbounded; the tests do not run the library.',
 ['stdlib/internal/khash.codon','stdlib/internal/types/collections/dict.codon','stdlib/internal/types/collections/set.codon'],
 [('flag bit helpers','stdlib/internal/khash.codon'),('open addressing','stdlib/internal/types/collections/dict.codon'),('open addressing','stdlib/internal/types/collections/set.codon')],['contents, len, membership'])
p('C12','List operations leave exactly the contents Python would',
 'Appending, inserting, removing, popping, deleting, extending, repeating, reversing, concatenating and (slice-)assigning a list produce exactly the contents and length Python produces for the same arguments, for every list and argument, and never read or write beyond the list storage. Requests Python rejects raise an error and leave the list unchanged.',
 ['inputs','histories'],'all lists, all index and slice arguments, any sequence of operations',
 'Element-wise equality for all lengths and indices is a quantified statement; no unit test runs the library.',
 ['stdlib/internal/types/collections/list.codon'],
 [('list methods','stdlib/internal/types/collections/list.codon')],['list contents and length','raised errors'])
p('C13','Heaps, bisection and double-ended queues keep their invariants',
 'Every heap operation keeps the heap order and the multiset of elements, so popping yields a smallest element; bisection returns the leftmost or rightmost position that keeps a sorted list sorted. A deque behaves as the sequence its pushes, pops, extends and rotations imply, for any history and maximum length.',
 ['histories','inputs'],'all heaps, sorted lists, queue histories and capacities',
 'These are inductive invariants over histories; no test exercises them.',
 ['stdlib/heapq.codon','stdlib/bisect.codon','stdlib/collections.codon'],
 [('sift operations','stdlib/heapq.codon'),('binary search','stdlib/bisect.codon'),('ring buffer','stdlib/collections.codon:deque')],['popped values','insertion points','deque contents'])
p('C14','String searching and editing agree with Python on every input',
 'Finding, counting, replacing, splitting, joining, stripping, padding, partitioning, prefix/suffix tests and ASCII case and class operations return what Python returns for every string, pattern and bounds argument. They never read outside the strings they are given.',
 ['inputs'],'all ASCII strings, patterns, counts and start/end bounds',
 'String and bound combinations are infinite and search loops are unrolled by hand, so residues of the length matter; the tests run none of it.',
 ['stdlib/internal/str.codon','stdlib/algorithms/strings.codon','stdlib/internal/types/str.codon'],
 [('search kernels','stdlib/algorithms/strings.codon'),('string methods','stdlib/internal/str.codon')],['returned strings and positions'])
p('C15','Calendar arithmetic is the proleptic Gregorian calendar',
 'Converting dates to day ordinals and back is a bijection that agrees with the proleptic Gregorian calendar over years 1-9999, and weekday and ISO week computations agree with it. Adding or subtracting time spans normalises fields into their ranges and is exact to the microsecond.',
 ['inputs'],'all dates of years 1..9999 and all representable durations',
 'Three million days and unbounded durations; no unit test runs the module.',
 ['stdlib/datetime.codon'],
 [('ordinal conversions','stdlib/datetime.codon'),('timedelta normalisation','stdlib/datetime.codon:timedelta')],['dates, ordinals, weekdays, durations'])
p('C16','Seeded generators produce their reference streams and stay in range',
 'For every seed the random number generators produce exactly the stream of the published algorithm they implement (Mersenne Twister, PCG64, Philox, SFC64, SplitMix64). Bounded draws always fall in the requested range.',
 ['inputs','histories'],'all seeds and states, all bounds, any number of draws',
 'State-transition equality over all states is out of reach of sampling, and the tests run none of these.',
 ['stdlib/random.codon','stdlib/numpy/random/mt19937.codon','stdlib/numpy/random/pcg64.codon','stdlib/numpy/random/philox.codon','stdlib/numpy/random/sfc64.codon','stdlib/numpy/random/splitmix64.codon'],
 [('generators','stdlib/random.codon; stdlib/numpy/random/*.codon')],['drawn values'])
p('C17','Integer number theory functions are exact',
 'Greatest common divisor, least common multiple, integer square root, factorial, combination and permutation counts return the exact mathematical value whenever it fits, for every argument, and reject arguments outside the domain with an error.',
 ['inputs'],'all 64-bit arguments',
 'Exactness for all 64-bit inputs (e.g. the square root near squares) cannot be sampled.',
 ['stdlib/math.codon'],
 [('gcd/lcm/isqrt/comb/perm/factorial','stdlib/math.codon')],['returned integers'])
p('C18','Every IR node reports and replaces exactly its operands',
 'Each kind of intermediate-representation node reports exactly the child values, types and variables it holds, and replacing one of them substitutes it in every position where it occurred and nowhere else, reporting the number of substitutions. Type queries on the node agree with its operands.',
 ['inputs','programs'],'every node kind, every operand position including repeated and absent operands',
 'Tests cover one replacement per node kind; aliasing between positions and absent operands are not covered.',
 ['codon/cir/instr.cpp','codon/cir/flow.cpp','codon/cir/func.cpp','codon/cir/const.cpp','codon/cir/var.cpp','codon/cir/value.cpp'],
 [('used/replace hooks','codon/cir/instr.cpp, codon/cir/flow.cpp')],['getUsedValues/replaceUsedValue results'])
p('C19','String literal escaping and decoding round-trip',
 'Decoding the escaped form of any string gives back the original string, and each escape sequence of the language (named, octal, hexadecimal) decodes to the character Python assigns to it. Splitting, joining and other text helpers used by the compiler return what their contract says on every input.',
 ['inputs'],'all byte strings',
 'All byte strings is an infinite set; the unit tests never call these helpers.',
 ['codon/parser/common.cpp'],
 [('escape/unescape','codon/parser/common.cpp')],['decoded text'])
p('C20','Dead code and global-to-local cleanups never remove needed effects',
 'Cleanup transformations remove a computation only when it cannot have a visible effect, and replace or delete a variable, branch or loop only when no execution could use it. The program observable behaviour before and after is identical.',
 ['programs'],'all programs in intermediate form',
 'Programs are infinite; tests cover single examples.',
 ['codon/cir/transform/cleanup/dead_code.cpp','codon/cir/transform/cleanup/global_demote.cpp','codon/cir/analyze/module/side_effect.cpp'],
 [('dead code rules','codon/cir/transform/cleanup/dead_code.cpp'),('effect analysis','codon/cir/analyze/module/side_effect.cpp')],['program output'])
p('C21','Type checking is sound: accepted programs do not go wrong at run time',
 'Every expression of an accepted program evaluates to a value of its inferred type, overloads resolve as documented, and ill-typed programs are rejected with a located error.',
 ['programs'],'all source programs','Programs are infinite; the tests check a few unification cases.',
 ['codon/parser/visitors/typecheck','codon/parser/ast/types'],
 [('unification','codon/parser/ast/types/link.cpp'),('inference','codon/parser/visitors/typecheck/infer.cpp')])
p('C22','Parsing accepts exactly the language and scoping follows the documentation',
 'Every program of the documented grammar parses to the tree Python assigns to it, other text is rejected with its position, and each name refers to the binding the scoping rules assign.',
 ['programs'],'all source texts','The grammar engine is not even built here.',
 ['codon/parser/peg','codon/parser/visitors/scoping/scoping.cpp'],
 [('grammar','codon/parser/peg/grammar.peg'),('scoping','codon/parser/visitors/scoping/scoping.cpp')])
p('C23','Generated machine code implements the intermediate representation',
 'The code generated for a program, on the host or a GPU, optimized or not, ahead of time or just in time, has the behaviour the intermediate representation defines, including generators, exceptions and finally blocks.',
 ['programs','configurations'],'all programs and targets','Programs are infinite and no code generation test is built.',
 ['codon/cir/llvm','codon/compiler'],
 [('LLVM lowering','codon/cir/llvm/llvisitor.cpp')])
p('C24','Dataflow facts hold on every path',
 'A definition the analysis reports as reaching, a variable it reports as not captured and a block it reports as dominating really are so on every execution path, so transformations relying on them are safe; analyses are recomputed after any pass that invalidates them.',
 ['programs','schedules'],'all control-flow graphs and pass schedules','Graphs are unbounded; tests check a few.',
 ['codon/cir/analyze/dataflow','codon/cir/transform/manager.cpp'],
 [('reaching definitions','codon/cir/analyze/dataflow/reaching.cpp'),('dominators','codon/cir/analyze/dataflow/dominator.cpp'),('invalidation','codon/cir/transform/manager.cpp')])
p('C25','Garbage collection never frees reachable data and threads share it safely',
 'Memory reachable from a live variable, closure, generator or thread is never reclaimed or moved under the program, and locks, atomics and thread joins give the ordering they document.',
 ['schedules','histories'],'all allocation histories and thread interleavings','Schedules and heap histories are unbounded.',
 ['codon/runtime/lib.cpp','stdlib/internal/gc.codon','stdlib/threading.codon'],
 [('collector interface','codon/runtime/lib.cpp')])
p('C26','Values crossing to Python and C keep their meaning',
 'Converting a value to a Python object or C type and back yields an equal value, reference counts balance, and errors raised on one side surface on the other.',
 ['inputs','histories'],'all convertible values','Needs a CPython; no such test is built.',
 ['stdlib/internal/python.codon','stdlib/internal/dlopen.codon'],
 [('conversion protocol','stdlib/internal/python.codon')])
p('C27','NumPy-style array operations equal element-wise evaluation',
 'Broadcasting, fused expressions, indexing and reductions over arrays give the result of applying the scalar operation element by element in index order to every element exactly once, regardless of memory layout and fusion.',
 ['inputs','programs'],'all shapes, strides and expressions','Shapes and expressions are unbounded; no array test is built.',
 ['stdlib/numpy','codon/cir/transform/numpy'],
 [('fusion','codon/cir/transform/numpy/numpy.cpp'),('broadcasting','stdlib/numpy/ndarray.codon')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
