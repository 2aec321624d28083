prop('C01', 'StringBuffer operations are atomic',
     'Every public operation of a StringBuffer behaves as one indivisible step with respect to every other operation on the same buffer from other threads, including operations in which the buffer is only an argument (copying, assigning, appending it). No thread ever sees a half-made change, loses an update, or reads text that is being replaced.',
     ['schedules'], 'all interleavings of any operations on shared StringBuffers by any number of threads',
     'the existing tests use every StringBuffer from one thread only; races need particular interleavings',
     [L + 'StringBuffer/StringBuffer.hpp', L + 'StringBuffer/StringBuffer.cpp'],
     [('lock_guard on StringBuffer::mutex in each operation', L + 'StringBuffer/StringBuffer.cpp')],
     state=[('original, currentLength, currentCapacity', 'the text and its bookkeeping', L + 'StringBuffer/StringBuffer.hpp'), ('mutex', 'guards them', L + 'StringBuffer/StringBuffer.hpp')],
     observe=['results of concurrent append/insert/delete/reverse/toString'],
     technique='lockset and critical-section typestate over fully inlined SSA of every StringBuffer member',
     note='Sound for accesses expressed through member pointers: every access of the guarded fields and text in every public operation holds that buffer\'s mutex within one acquisition. Trusts std::mutex and guards; a buffer under construction is taken to be unshared.')

prop('C02', 'Locks are always released and cannot deadlock',
     'No operation of StringBuffer, Semaphore or Thread returns or throws leaving an internal lock held, and no combination of their operations from any threads, including an object passed to its own operation, can leave the threads blocked on each other\'s or their own internal locks. No user code (a task or an overridden method of an argument) runs while an internal lock is held.',
     ['schedules', 'inputs'], 'all interleavings, all exceptional exits, all argument aliasings',
     'tests never throw under a lock, never pass an object to itself and never run two threads in opposite orders',
     [L + 'StringBuffer/StringBuffer.cpp', L + 'Thread/Thread.cpp', U + 'Concurrent/Semaphore/Semaphore.cpp'],
     [('RAII guards', L + 'StringBuffer/StringBuffer.cpp'), ('conditionMutexObject before permitMutexObject', U + 'Concurrent/Semaphore/Semaphore.cpp')],
     observe=['operations that never return'],
     technique='lock typestate with exceptional edges, alias-case splitting and a global lock-order graph over inlined SSA',
     note='All functions of the mutex-owning classes and every other library function using a lock; vendored lock-free queue and cuckoo map are trusted. A condition that is never signalled is C03/C06, not this property.')

prop('C03', 'Semaphore never over-grants and never loses a wake-up',
     'Permits handed out by a Semaphore never exceed the permits it was given, which are those of its constructor plus exactly those named in each release: an acquire or a successful tryAcquire takes exactly the requested permits while that many are available, a failed tryAcquire takes none, and acquire returns only with its permits. A waiter whose request has become satisfiable by a release is woken, however the release and the start of the wait interleave.',
     ['schedules', 'inputs'], 'all interleavings of acquire, tryAcquire (timed or not) and release by any number of threads, all permit counts',
     'tests use one or two threads and sleeps; lost wake-ups and double grants need a release between the test of the count and the wait',
     [U + 'Concurrent/Semaphore/Semaphore.cpp', U + 'Concurrent/Semaphore/Semaphore.hpp'],
     [('count tested and waited for under conditionMutexObject; notify_all on release', U + 'Concurrent/Semaphore/Semaphore.cpp')],
     state=[('permitCounter', 'permits available', U + 'Concurrent/Semaphore/Semaphore.hpp')],
     observe=['tryAcquire results', 'availablePermits', 'acquire returning'],
     technique='lockset, critical-section dataflow and linear entailment on every store of the permit count, wait/notify pairing',
     note='Each store of the count is proved to be old+n or old-n with n the permits named in the call and n<=old in one critical section; success is returned exactly on taking paths; waits begin in the section that tested the count. No int overflow of the count assumed; fairness is out of scope.')

prop('C05', 'Random gives the documented sequence, each draw its own step',
     'A Random seeded by its constructor or setSeed starts from (seed ^ 0x5DEECE66D) mod 2^48 and forgets any spare normal number; next(bits) advances the seed by exactly one step of the documented generator, in one atomic compare-and-set, and delivers the top bits of the new seed, so concurrent draws never share, lose or repeat a step. nextInt, nextInt(bound), nextLong, nextBoolean, nextFloat, nextDouble and nextGaussian make exactly the documented draws in order, whatever came before, and combine them by the documented formulas (those of java.util.Random), nextBytes and nextString draw once per element. A bounded draw lies in [0, bound) and favours no value: exactly the draws above the last whole multiple of the bound are rejected, powers of two take the high bits, and a bound that is not positive is refused.',
     ['inputs', 'schedules', 'histories'], 'all seeds, all states of the generator, all bounds that are powers of two and eleven others, all interleavings of draws',
     'tests look at the range of a few numbers from one thread; a biased, repeated or shared draw looks just as random',
     [U + 'Random/Random.cpp', U + 'Random/Random.hpp'],
     [('compare-and-set loop of next', U + 'Random/Random.cpp'), ('rejection of the incomplete last block', U + 'Random/Random.cpp')],
     state=[('seed', 'the 48-bit state of the generator', U + 'Random/Random.hpp'), ('haveNextGaussianNumber, nextGaussianNumber', 'the spare normal number', U + 'Random/Random.hpp')],
     observe=['the sequence of numbers for a seed', 'numbers drawn by several threads'],
     technique='value-flow normal forms of every draw over SSA, loops cut at back edges with arbitrary loop state, compare-and-set tracked as a path event',
     note='The spare normal number is not protected between threads and is outside. std::atomic, log and sqrt are trusted. Draws of a bound are decided for all powers of two and eleven other bounds, each over all draws of the first, an inner, the last whole and the rejected block.')

prop('C06', 'Thread join means finished; a live thread is never started twice',
     'When join returns other than by its own timeout, the thread\'s task has run to completion and the thread is no longer alive, and this holds for every join, repeated or concurrent. A thread counts as alive from start until its task has ended, and calling start on a live thread never runs the task a second time.',
     ['schedules', 'histories'], 'all interleavings of start, join, isAlive and the thread body',
     'tests start one thread and join it once, with sleeps hiding the orderings',
     [L + 'Thread/Thread.cpp', L + 'Thread/Thread.hpp'],
     [('completion semaphore released last in run(); alive flag under mutexObject', L + 'Thread/Thread.cpp')],
     state=[('alive', 'task not yet ended', L + 'Thread/Thread.hpp'), ('semaphoreObject', 'completion permit', L + 'Thread/Thread.hpp')],
     observe=['join', 'isAlive', 'start'],
     technique='path-sensitive typestate of the thread body, permit balance of join, lockset of the alive flag',
     note='Decides the protocol in Thread itself, given C03 for the semaphore it uses. An exception escaping the task ends the process and is outside the claim.')

prop('V06', 'Independent objects and calls never interfere',
     'Using one object or calling one static function never changes what another, unrelated object or call does or returns, in the same thread or in another: results are never kept in storage shared between objects or calls, nothing is fixed by whichever call came first, and process-wide settings (locale, environment, the C library\'s shared buffers and generators) are left alone.',
     ['histories', 'schedules'], 'all sequences and interleavings of calls on unrelated objects',
     'tests exercise one object at a time on one thread; interference needs a second object or thread, or a particular earlier call',
     ['library/'], [('per-object and automatic storage only', 'library/')],
     observe=['results of any operation after unrelated operations'],
     technique='whole-library interprocedural write-effect analysis over static storage and process-wide libc state',
     note='Every write effect of every library function (containers instantiated) is resolved to its root object; roots in mutable, non-thread-local static storage are violations. Externals are modelled by a table of libc functions with hidden state.')

prop('V05', 'Queries change nothing; const arguments are never modified',
     'Asking an object a question (size, get, contains, equals, compareTo, toString, subString, iteration, cloning and the like) never changes what any later operation on that object or on an argument does, whatever was asked and in whatever order. A parameter declared const is never modified, and a combination (concat, +, and, union with a collection) leaves its right-hand operand as it was.',
     ['inputs', 'histories'], 'all objects, all arguments, all earlier and later operations',
     'tests look at the answer of a query, almost never at the object or the argument afterwards',
     ['library/'], [('const members and by-const-reference parameters; private caches only', 'library/')],
     observe=['any result after a query that differs from the result without it'],
     technique='whole-library interprocedural write-effect analysis of queries and const parameters',
     note='Decided from all write effects of every function, template members instantiated. Private caches of derived text are excepted here (their coherence is another property). BitSet::clone trims its capacity as documented in Java.')

prop('E01', 'Exceptions keep their message and cause and their place in the hierarchy',
     'Every exception object carries exactly the message and the cause it was made with (an empty message, no cause, when none was given), through every constructor of every exception class and through copying, and nothing changes them later. Every exception can be caught as each class it is documented to be: the Java hierarchy up to Throwable, unambiguously.',
     ['inputs'], 'all messages and causes, all constructors, all exception classes',
     'tests construct some exceptions with one fixed text each; causes are rarely looked at and handlers name the exact class',
     [L + 'Throwable/Throwable.cpp', L + 'Exception/Exception.cpp', 'library/Java/', 'library/Javax/'],
     [('message and cause stored by Throwable, passed up by every constructor', L + 'Throwable/Throwable.cpp')],
     observe=['getMessage', 'getCause', 'which handler is entered'],
     technique='symbolic-term dataflow through delegating constructors over IR; class-graph query for the hierarchy',
     note='Every constructor is evaluated to the terms it leaves in message and cause; getters and other members are checked not to differ. String copying itself is trusted here.')

prop('E04', 'A rejected operation changes nothing',
     'When an operation refuses its arguments or the object\'s state by throwing one of the library\'s exceptions, the object and every object passed to it are exactly as they were before the call: nothing was inserted, removed, resized, moved, half-written or marked. The program can catch the exception and go on using them.',
     ['inputs', 'histories'], 'all operations that can throw a library exception, all arguments and object states',
     'tests check that the exception comes, with valid state rarely looked at afterwards',
     ['library/'], [('checks made before the first change', 'library/')],
     observe=['contents, length, size and capacity after a caught exception'],
     technique='forward typestate (unchanged/changed) dataflow against an interprocedural throw analysis',
     note='Covers library exceptions only; out of memory is outside. Destination arrays handed over to be filled may be partly filled.')

prop('V08', 'Number wrappers compute exactly what their primitive would',
     'For all values of Bytes, Short, Integer, Long, Float and Double, the arithmetic and compound-assignment operators, the comparison operators, equals, compareTo, compare, min, max, sum, signum, the unsigned comparisons, divisions and conversions, the xxxValue conversions and the constructors and assignments give exactly what the same operation gives on the primitive values (two\'s complement wrap, width and signedness of the type; Java\'s total order for floating point), also when an object is its own operand. Dividing an integral wrapper by zero throws ArithmeticException, and x/-1 is -x for every x, the minimum included.',
     ['inputs'], 'all pairs of operand values, including extremes, equal values and an object used as its own operand',
     'tests use a few small values; wrap-around, sign, -1 divisors, aliasing and values wider than int do not occur in them',
     [L + 'Integer/Integer.cpp', L + 'Long/Long.cpp', L + 'Short/Short.cpp', L + 'Bytes/Bytes.cpp', L + 'Float/Float.cpp', L + 'Double/Double.cpp'],
     [('one primitive operation on the stored values per operator', L + 'Integer/Integer.cpp')],
     observe=['values returned or left in the object'],
     technique='value-flow abstract interpretation (polynomial value numbering with finite case partition) of each operation',
     note='Each operation is reduced to a normal-form term per case (operand ordering, divisor class, aliasing) and compared with the primitive operation. An open case is partitioned further, at the constants the code distinguishes and the widths it narrows to (points and intervals covering every operand). What stays open is unjudged and listed in the evidence. Parsing and text are other properties.')

prop('V02', 'No operation kills the program',
     'No argument values, operand values or object states make an operation of the library end the process instead of returning or throwing: no integer division or remainder is reached with divisor 0 or with MIN/-1, no library exception is thrown out of a destructor or a function that may not throw, and nothing but System::exit calls exit, abort or the like.',
     ['inputs'], 'all argument values of every library operation, all object states',
     'tests divide by ordinary numbers only; a trap ends the test program itself',
     ['library/'], [('zero checks before each division', L + 'Integer/Integer.cpp'), ('argument checks', U + 'Random/Random.cpp')],
     observe=['the process dying with SIGFPE or std::terminate'],
     technique='constant-conditioned reachability of every division, exception-escape analysis of noexcept code, call query',
     note='Every non-constant integer division in library code is decided by reachability under the assumption that its divisor has the bad value, through getters, helpers and callers of private functions. Exceptions a user callback throws, and memory errors, are outside.')

prop('V11', 'Exact arithmetic is exact or throws; floor division rounds down',
     'Math::addExact, subtractExact, multiplyExact, incrementExact, decrementExact, negateExact and toIntExact return the mathematically exact result whenever it fits the result type, and throw ArithmeticException whenever it does not, for all int and long operands. floorDiv rounds towards minus infinity and floorMod satisfies x == floorDiv(x,y)*y + floorMod(x,y) with the sign of y, throwing ArithmeticException for y == 0; abs, min and max of int and long pick the right value.',
     ['inputs'], 'all operand values',
     'tests use a few values; overflow at the corners (MIN_VALUE, products that wrap to positive, quotients truncated to 0) is not among them',
     [L + 'Math/Math.cpp'], [('overflow tests', L + 'Math/Math.cpp')],
     observe=['the returned value', 'ArithmeticException'],
     technique='value-flow abstract interpretation with a finite partition by operand range, result sign and exactness',
     note='Each function is reduced to the term it returns (or the exception) in every cell of the partition. multiplyExact(long) relies on the overflow intrinsic.')

prop('V01', 'Remembered text always describes the current value',
     'An object that remembers its text form (number wrappers, StringBuilder, BitSet, Date, MediaType and the rest), or once remembered a hash of it, never shows a text or hash of an earlier value: whatever sequence of constructors, assignments, operators and mutating members produced the object, its text is the text of its present value. All members of one class write the value in the same format.',
     ['inputs', 'histories'], 'all sequences of operations on an object, all public members',
     'tests print an object once after one operation; a text left over from an earlier value needs a particular sequence of operations',
     ['library/Java/'], [('number wrappers with a text member', L + 'Integer/Integer.cpp'), ('text remade on demand', L + 'StringBuilder/StringBuilder.cpp'), ('date fields', U + 'Date/Date.cpp')],
     observe=['toString / c_str after mutating operations'],
     technique='abstract interpretation of every member over {coherent, stale} with interprocedural transfer summaries, fixpoint over all members',
     note='Which text is right for a value is decided only up to the format and the value it is made from; the digits themselves are the C library\'s.')

prop('V10', 'Bit operations deliver exactly the right bits',
     'reverse, reverseBytes, rotateLeft/rotateRight, highestOneBit/lowestOneBit, numberOfLeadingZeros of Integer and Long, numberOfTrailingZeros and bitCount of Long, and the unsigned widenings of Integer and Bytes return exactly the bits they are defined to, for every argument. Hash codes of the integer wrappers and of UUID are exactly their documented folding of the value, and UUID\'s version, variant, clock sequence and node are exactly their fields of its 128 bits.',
     ['inputs'], 'all argument values (2^32 or 2^64 each, all distances)',
     'tests try a few values out of 2^64; a wrong mask or shift shows only for values with particular bits',
     ['library/Java/Lang/', 'library/Java/Util/UUID/'], [('bit twiddling', L + 'Integer/Integer.cpp'), ('bit twiddling', L + 'Long/Long.cpp'), ('UUID fields', U + 'UUID/UUID.cpp')],
     observe=['returned integer'],
     technique='bit-level abstract interpretation (each result bit as input bit, constant or parity) over a finite partition of the arguments',
     note='Integer.numberOfTrailingZeros and bitCount go through strings of digits and stay undecided (reported as such).')

prop('M01', 'Heap memory is freed exactly once and not used afterwards',
     'Every block of heap memory the library allocates is released exactly once on every path: nothing is freed twice, used after it was freed, freed without having been allocated, or lost while nobody can reach it. This includes early returns, the library\'s own exceptions, copied and assigned objects (each copy owns its memory), and objects passed to their own operations.',
     ['inputs', 'histories'], 'all paths of every library function, all sequences of operations on an object',
     'tests run without a leak or address checker; a stale pointer or a leak leaves results right until much later',
     ['library/'], [('text buffers of the number wrappers', L + 'Integer/Integer.cpp'), ('growing buffers', L + 'StringBuilder/StringBuilder.cpp'), ('list nodes', U + 'LinkedList/LinkedList.hpp')],
     observe=['double free, use after free, growing memory'],
     technique='ownership typestate over every path with interprocedural summaries; class invariant for owning fields (inductive over all members)',
     note='Blocks allocated inside the standard library are its business; vendored concurrent containers and libuuid are not analysed; failing allocation is assumed away.')

prop('M02', 'Copies carry over every field; self-assignment changes nothing',
     'Copy-constructing or assigning an object of any library class gives it the value of every data member of the original (remembered texts excepted), whatever the original holds. Assigning an object to itself leaves it as it was.',
     ['inputs'], 'all originals, all copy constructors and assignments, compiler-written ones included',
     'tests copy few classes and look at one member of the copy',
     ['library/'], [('hand-written copy operations', U + 'BitSet/BitSet.cpp'), ('assignment guards', U + 'Vector/Vector.hpp')],
     observe=['members of the copy through getters, text and later behaviour'],
     technique='must-write dataflow per data member over every copy operation, with dependence on the same member of the original',
     note='Decides that each member is carried over from the same member on every path; element-wise copying of standard containers and strings is trusted.')

prop('M06', 'Positions outside are refused, positions inside never are',
     'Every operation of String, the string builders and buffers, ArrayList, Vector, LinkedList, Stack, BitSet and Random that takes a position, a range or a size, or needs an element to be there, throws one of the library\'s exceptions for every argument outside its bounds (the bounds of the text or collection as it is then) and for none inside them. No argument given as a position, count or size reaches a memory address, a std::string position or an allocation size without having been limited from below, and from above by a length.',
     ['inputs', 'histories'], 'all argument values, all lengths of the object (empty ones included), all states reachable by operations',
     'tests try a few positions on a few texts; an off-by-one shows only for the position at the end, an empty object, or a negative argument, and often only as memory damage',
     ['library/Java/Lang/', 'library/Java/Util/'], [('bounds tests', L + 'StringBuilder/StringBuilder.cpp'), ('bounds tests', U + 'Vector/Vector.hpp'), ('range tests', U + 'BitSet/BitSet.cpp')],
     observe=['exception or normal return, memory addressed'],
     technique='path-sensitive linear guard facts (Fourier-Motzkin entailment) per acyclic path with interprocedural guard summaries, against a table of allowed ranges',
     note='String::subString (which answers an impossible range with the empty text) and the source ranges of insert() are held to the second sentence only; sums of positions are taken not to overflow int.')

prop('M04', 'Everything starts with a value',
     'Every constructor of every library class, hand-written or written by the compiler, leaves every data member of built-in type (numbers, flags, pointers), its own and inherited, with a value. No operation reads a local variable before it was given a value on the path taken: what an operation does or returns never depends on what happened to be in memory.',
     ['inputs', 'histories'], 'all constructors, all paths of every library function',
     'fresh memory is usually zero, so a member nobody set reads as 0 in a test; a variable set in most branches is right for the inputs tested',
     ['library/'], [('in-class initialisers', U + 'Random/Random.hpp'), ('constructors', L + 'Thread/Thread.cpp'), ('defaults before parsing', U + 'Date/Date.cpp')],
     observe=['getters and results after construction in used memory'],
     technique='must-write dataflow over every constructor with interprocedural summaries; definite-assignment dataflow over every local variable',
     note='The contents of heap blocks and of local arrays are not followed. A structure counts as set when part of it is (struct tm handed to mktime and strftime is followed byte by byte).')

prop('C04', 'Operations of the concurrent containers are single atomic steps',
     'Every key operation of ConcurrentHashMap (put, get, getOrDefault, containsKey, find, putIfAbsent, remove, replace) acts at one instant: its answer and the change it makes are those the documented operation has on the map as it is at that instant, whatever other threads do before, between and after its accesses. ConcurrentLinkedQueue adds exactly its argument, poll takes at most one element and returns exactly the one taken, clear stops only when it finds the queue empty; size, isEmpty and clear speak of the whole container. Walking or copying a whole ConcurrentHashMap touches its elements only while the table is locked.',
     ['inputs', 'schedules', 'histories'], 'all keys and values, all contents, all interleavings with other operations of the container',
     'a test from one thread cannot tell a check followed by an act from one step, and a stress test rarely hits the window between the two',
     [U + 'Concurrent/ConcurrentHashMap/', U + 'Concurrent/ConcurrentLinkedQueue/'],
     [('single calls of the underlying table, closures run under its lock', U + 'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp'), ('calls of the underlying queue', U + 'Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp')],
     observe=['results of operations of several threads', 'elements lost or taken twice'],
     technique='path-by-path evaluation of every operation over SSA against its sequential specification, each call into the vendored container one step with an independent outcome (atomicity analysis)',
     note='Each call into libcuckoo or moodycamel is trusted to be one atomic step, their own code is not analysed. Iterators handed out by begin() and end() outlive the lock (known findings).')

prop('K06', 'Every public function the headers declare can be called',
     'Every function, constructor, destructor and constant a library header declares public or protected has a definition in the library, every member of its class templates compiles and links when used with ordinary element types, and the classes meant to be instantiated can be. No program that uses only what the headers promise fails to build.',
     ['inputs'], 'all declarations of all headers, all members of all class templates (element types String and Integer)',
     'a member of a template nobody calls in a test is never compiled, a function nobody calls is never linked: both build and pass',
     ['library/'], [('declarations', L + 'Long/Long.hpp'), ('template members', U + 'ArrayList/ArrayList.hpp'), ('constants', 'library/Javax/Ws/Rs/Core/MediaType.hpp')],
     observe=['a program calling the function compiles and links'],
     technique='declared-against-defined comparison over the syntax tree of all headers and the symbols of the compiled library; explicit instantiation and compile witnesses',
     note='Vendored headers and the test framework are left out. Function templates are decided by the witnesses listed in checks/k06.py.')

prop('T01', 'Every operation comes to an end',
     'No loop of the library can run for ever, whatever text, number, container or date it is given: every way round a loop changes something its exit depends on, in steps that cannot be zero and that lead towards the exit, and a value that is halved, shifted or scaled until it passes a limit can reach that limit from every start. No operation calls itself (directly or through others) on every path to its return. Waiting for another thread (locks, permits, elements, a failed compare-and-set) is not covered.',
     ['inputs', 'histories'], 'all inputs, all ways around every loop of the library, the call graph',
     'a test that ends shows one input; the input that makes a loop stand still (an empty pattern, a cut off escape, a negative value, zero) is one nobody tried',
     ['library/'], [('search loops', L + 'String/String.cpp'), ('scanning loops', U + 'Date/Date.cpp'), ('escape scanning', 'library/Java/Net/URLDecoder/URLDecoder.cpp'), ('shift loops', L + 'Long/Long.cpp'), ('halving loops', U + 'Arrays/Arrays.hpp')],
     observe=['the call returns'],
     technique='progress analysis of every natural loop over SSA: slice of the state its exits depend on, change of that state on every path around it under linear guard facts, fixed points of self-computed values; recursion over the call graph with post-dominance',
     note='Loops whose progress depends on values read from memory they also write are undecided (listed in the evidence). The loops of vendored code and of the standard library are taken to end.')
