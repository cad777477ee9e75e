import json
P=[]
BI="src/BigInteger.cpp"; CALC="src/BigIntegerCalculator/"
HDR="include/public/bigintegercpp/BigInteger.h"
ALLC=[CALC+f for f in ("AddSub.cpp","BitsBuffer.cpp","DivRem.cpp","FastReducer.cpp","GcdInv.cpp","PowMod.cpp","SquMul.cpp")]
PY="bindings/python/python-bindings.cpp"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement.count('. '))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)

p('C01','A failed operation leaves every value exactly as it was',
 "If a big-integer operation throws, because an allocation anywhere inside it failed, the divisor was zero or an argument was out of range, then every value the caller passed in or assigned to (targets of copy assignment and of in-place operators, output arguments, read-only operands, also when they are the same object) still holds exactly the value it had before the call. The same holds for the output of a text parse that reports failure. Repeating the call once the cause is gone gives the result it would have given without the failure.",
 ['fault_sequences','histories','inputs'],
 "every public operation that can fail, every allocation point inside it, every prior history of the operands, every aliasing of target and operands",
 "The tests never make an allocation fail and never look at an operand after an exception; the number of (operation, operand shape, allocation index) triples is unbounded.",
 [BI,HDR]+ALLC,
 [('compute into temporaries, then move-assign into *this',BI+': compound operators'),('member-wise copy assignment',HDR),('output argument written last',BI+': div_rem, try_parse')],
 [('sign/word pair','the two fields that must change together',HDR)],
 ['sign_internal()/get_bits() of every live value after each call'])
p('C02','Memory faults never produce a wrong answer',
 "Whatever allocations fail and in whatever history, an operation that completes normally has delivered exactly the value that integer arithmetic (in C# BigInteger's conventions) defines for its operands, in canonical form. Values that survive a failure keep taking part in later operations with exact results; a failed call succeeds when repeated with memory available.",
 ['fault_sequences','histories','inputs'],
 "every history of public operations over a bank of live, aliased values with any set of injected allocation failures",
 "Tests run each operator on a handful of short random operands, never under memory pressure, never in mixed histories, and mostly below the size thresholds where the sub-quadratic and reducing algorithms start.",
 [BI,HDR]+ALLC,
 [('schoolbook/Karatsuba multiply and square',CALC+'SquMul.cpp'),('Knuth division',CALC+'DivRem.cpp'),('Barrett reduction',CALC+'FastReducer.cpp'),('Lehmer gcd',CALC+'GcdInv.cpp'),('canonicalising constructors',BI)],
 None,['value of every result, every live value after each call'])
p('C03','No leak, double free or stray access under any failure',
 "Whatever sequence of succeeding and failing operations a program performs, the library touches only memory it owns or was given, releases each block exactly once, and holds on to nothing once the caller's values are gone: repeating the same history, failures included, does not grow the heap.",
 ['fault_sequences','histories','inputs'],
 "every operation history, every subset of failing allocations, every operand size and sign",
 "The test run has no leak or bounds checking and never takes an error path after memory was acquired.",
 [BI]+ALLC,
 [('vector-owned buffers',BI),('temporary text buffer of to_string',BI),('explicit buffer sizes passed next to raw pointers',CALC+'*.cpp')],
 None,['allocator calls and memory accesses made by library code'])
p('C04','Failures are reported as the documented error, never by dying',
 "An allocation that cannot be satisfied surfaces to the caller as std::bad_alloc (or as false from the non-throwing parse), division or reduction by zero as DivideByZero, a negative exponent as std::out_of_range, and a value that does not fit the requested form as std::overflow_error or, for the unsigned bytes of a negative value, std::runtime_error. This holds for operands of every size and sign and for a failure at any point; nothing is swallowed, turned into another error, or ends the process.",
 ['fault_sequences','inputs','histories'],
 "every invalid request and every allocation point of every operation, alone and combined, at every operand size",
 "Each error is tested, if at all, with one small operand; no test injects an allocation failure, and several code paths (small/large value, exponent, modulus) each need their own check.",
 [BI,"include/exceptions.h",CALC+'DivRem.cpp',CALC+'PowMod.cpp'],
 [('zero-divisor checks in each division path',CALC+'DivRem.cpp, PowMod.cpp'),('checked casts',BI),('catch-all in try_parse',BI)],
 None,['type of the exception leaving each call','process exit'])
p('C05','Values shared between threads can be read and used concurrently',
 "Any number of threads may at the same time use the same unmodified values: query, compare, convert, copy them and pass them as operands of any operation. In every interleaving each thread gets the result it would get alone, the shared values do not change, and no memory is accessed by two threads in conflict.",
 ['schedules','histories','inputs'],
 "every interleaving, at the granularity of single memory accesses, of any operations that take the shared values as read-only operands",
 "All tests are single-threaded; a hidden write to a shared operand or to static storage is invisible to them.",
 [BI,HDR]+ALLC,
 [('no mutable members, no caches; calculators work on local copies',BI),('read-only operand access',CALC+'*.cpp')],
 None,['results per thread, shared operands afterwards, access conflicts'])
p('C06','Threads working on their own values do not affect each other',
 "Threads that operate, also in place, on values of their own, including copies taken from one original, get in every interleaving exactly the results they would get alone, whatever the other threads do and whichever of the other threads' operations fail for lack of memory. Copies share nothing with their original that a later change or destruction of either could disturb.",
 ['schedules','fault_sequences','histories'],
 "every interleaving of mutating operations on disjoint values, including each thread's first use of the library, with failures injected into some threads",
 "Tests never run two operations at once, so shared scratch buffers, lazily built tables or copy-on-write storage would pass them.",
 [BI,HDR]+ALLC,
 [('value semantics by owning vectors',HDR),('no static mutable state in calculators',CALC+'*.cpp')],
 None,['per-thread results and final values, access conflicts'])
p('C07','Saving, crashing and restoring at any point is invisible',
 "A program that saves its values in any form the library offers (signed or unsigned, little- or big-endian bytes, decimal text, words with sign, fixed-width integers when they fit), is killed at any instant, restores the last complete save and replays the operations since, ends up indistinguishable from one that never stopped: equality, ordering, hash code, bytes, words, text and all later results agree.",
 ['crash_points','histories','inputs'],
 "every history, every crash instant (also inside an operation), every mix of save formats",
 "Tests round-trip a few values through one form and compare text only; no test continues computing with a restored value or compares its representation, hash and order with the original's.",
 [BI,HDR],
 [('canonicalising byte/word/text constructors',BI),('minimal two\'s-complement writer',BI+': to_byte_array, to_uint32_array'),('decimal writer and parser',BI+': to_string, parse')],
 [('durable bytes/text','what survives the crash','caller')],['all observers of all values after recovery'])
p('C08','Damaged saved data still loads as exactly what it denotes',
 "Whatever bytes or text come back from storage, truncated, torn between an old and a new version, bit-flipped, zero- or sign-padded, repeated or empty, loading them never fails for a reason other than lack of memory, reads nothing outside them, and yields exactly the canonical value those bytes denote (two's complement or unsigned, in the given byte order; for text an optional sign and the decimal digits up to the first other character).",
 ['fault_sequences','inputs','crash_points'],
 "every byte string and text reachable by storage faults from any saved value, for every load option",
 "Tests load only well-formed, mostly minimal encodings of a few random values.",
 [BI],
 [('padding trimming and sign extension in the byte constructor',BI),('digit scan of parse',BI)],
 None,['value, representation and all observers of what was loaded'])
p('C09','Results do not depend on anything the environment leaves to chance',
 "The same history of operations gives bit-identical results on every run and every replica, whatever the fresh or recycled memory contains, wherever it lies, whatever was left on the stack, and whichever floating-point rounding mode, global locale and errno the host program has set (only the rounding of logarithms and of the narrowing to float may follow the rounding mode).",
 ['configurations','histories','schedules'],
 "every history under every combination of heap contents, block reuse and placement, stack residue, rounding mode, locale and errno",
 "Tests run once in one default environment with mostly zeroed fresh memory; replicas of a blockchain VM must agree under all of them.",
 [BI,HDR,"include/NumericsHelpers.h"]+ALLC,
 [('explicitly zeroed buffers',CALC+'*.cpp'),('locale-free digit loops',BI+': to_string, parse'),('bit-level double conversion',"include/NumericsHelpers.h")],
 None,['every result of two replicas of the same history'])
p('C10','Start-up and shutdown order does not matter',
 "Values created, used or destroyed before main starts or after it ended (initialisers of globals in any translation unit and in any link order, exit handlers, destructors of globals) behave exactly as during main: every operation gives the same results and no destroyed or not yet constructed state is touched.",
 ['schedules','configurations','histories'],
 "every order of the library's and its clients' initialisers and finalisers, every history run from them",
 "The tests use the library only inside main and link it as a shared library, which fixes one initialisation order.",
 [BI,HDR],
 [('constant values used by constructors and operators',BI)],
 [('namespace-scope constants','run-time initialised state other initialisers can observe too early or too late',BI)],
 ['results of operations performed by initialisers and finalisers'])
p('C11','Every operation finishes in bounded steps, even beside stalled threads',
 "Every operation completes, with a result or an error, within a number of steps bounded by a fixed low-degree polynomial in the size of its operands and result, for every operand. That holds right after failed operations and in every interleaving, also when other threads are stopped for good in the middle of operations of their own.",
 ['schedules','fault_sequences','inputs'],
 "every operation and operand, every set of failures before it, every set of threads stalled at any instant",
 "A non-terminating reduction or a lock held by a stopped thread needs particular operands or a particular interleaving; tests try neither.",
 [CALC+'GcdInv.cpp',CALC+'PowMod.cpp',CALC+'FastReducer.cpp',CALC+'DivRem.cpp',CALC+'SquMul.cpp',BI],
 [('decreasing operands in the gcd and reduction loops',CALC+'GcdInv.cpp, FastReducer.cpp'),('no locks',BI)],
 None,['instrumented steps per operation'])
p('C12','Heap need is proportionate and stack need is small and constant',
 "An operation succeeds whenever the heap can supply a fixed multiple of the space its operands and result take, and it runs on a small fixed thread stack however large its operands are. When the heap is smaller than needed it fails cleanly instead of half-finishing, and it never holds more than that multiple at any moment.",
 ['fault_sequences','configurations','inputs'],
 "every operation, every operand size, every heap limit, thread stacks of a fixed small size",
 "Tests run with unlimited heap and an 8 MB stack; growth with operand size is not measured.",
 [BI]+ALLC,
 [('heap buffers sized from operand lengths',CALC+'*.cpp'),('heap-allocated text buffer',BI+': to_string'),('power result bound',CALC+'PowMod.cpp: pow_bound')],
 None,['peak live heap per operation, stack high-water mark'])
p('C13','Memory exhaustion inside a Python-level operation is contained',
 "When memory runs out in the library or while integers and bytes are converted, anywhere inside an operation of the Python BigInteger type, the caller gets MemoryError, the interpreter lives on, all operands keep their value, no memory or reference is lost, and the same expression evaluated again gives the exact result. An operation that does return under such faults returns the exact value (C# division conventions) and the documented result type.",
 ['fault_sequences','histories','inputs'],
 "every Python operation incl. reflected ones and int arguments of any size, every failing allocation in the library or in integer and bytes conversion",
 "The binding tests never make an allocation fail and never look at reference counts or operands afterwards.",
 [PY]+[BI],
 [('conversion helpers',PY+': to_biginteger, to_py_int'),('exception translation',PY)],
 None,['exception type, operands, reference counts, results'])
p('C14','A Python BigInteger never changes value under any interleaving',
 "Once created, a Python BigInteger keeps its value, hash code, bytes and text for life, whatever operations (augmented assignment, divmod, abs, copying, reflected operators, use as dictionary key) any interleaving of tasks and threads performs with it. Each operation gives the result it would give alone, whichever other tasks and threads run meanwhile.",
 ['schedules','histories'],
 "every interleaving of Python-level operations over shared objects, every history of such operations",
 "Tests use each object in one statement of one thread and never re-check operands.",
 [PY,BI],
 [('operators return new objects',PY),('no state shared between operations',PY)],
 None,['value, hash, dict membership of every object after each step'])
p('C15','Reading a Python buffer is faithful, bounded and releases the buffer',
 "Constructing a BigInteger from any one-dimensional byte buffer (bytes, bytearray, memoryview slices with any step, empty or read-only ones) gives the value of exactly the bytes the buffer exposes, reads nothing else, and later changes to the exporter do not affect it. On every outcome, including rejection and memory exhaustion, the buffer is released so that its owner can resize it.",
 ['fault_sequences','histories','inputs'],
 "every exporter layout, every failure during construction, every later history of the exporter",
 "The only test passes two small bytes objects; strided, released, non-byte and failing exporters are never used.",
 [PY],
 [('buffer request and copy',PY+': buffer constructor')],
 None,['constructed value, exporter\'s ability to resize, memory accesses'])

def f(id,title,statement,why,files,mech):
    p(id,title,statement,['inputs'],'all operand values',why,files,mech)
f('F01','Addition, subtraction, multiplication, negation and powers are exact',
 "For all integers, addition, subtraction, multiplication, increment, decrement, negation, absolute value and non-negative powers return the mathematically exact integer.",
 "Random samples cannot cover all operand values and carry patterns.",[BI,CALC+'AddSub.cpp',CALC+'SquMul.cpp',CALC+'PowMod.cpp'],[('carry chains and Karatsuba split',CALC)])
f('F02','Division truncates and the remainder has the dividend\'s sign',
 "For all dividends and non-zero divisors, quotient times divisor plus remainder is the dividend, the quotient is truncated towards zero and the remainder has the sign of the dividend and is smaller than the divisor in magnitude.",
 "Quotient-digit correction paths occur once in billions of random operands.",[BI,CALC+'DivRem.cpp'],[('Knuth division',CALC+'DivRem.cpp')])
f('F03','Bitwise operators and shifts act on infinite two\'s complement',
 "And, or, xor, complement and shifts (negative counts shifting the other way, right shifts rounding down) act on all integers as on infinite two's-complement bit strings.",
 "Word-boundary and sign-extension cases are too many to sample.",[BI],[('two\'s-complement word form',BI)])
f('F04','Greatest common divisors and modular powers are exact',
 "For all operands the greatest common divisor is the largest non-negative common divisor, and a modular power is the remainder (with the sign of the base) of the exact power.",
 "Existing samples stay small and miss the large-operand algorithms.",[CALC+'GcdInv.cpp',CALC+'PowMod.cpp',CALC+'FastReducer.cpp'],[('Lehmer gcd, Barrett reduction',CALC)])
f('F05','Equality, ordering and hash codes are coherent',
 "Equality and ordering are those of the integers denoted, a total order, and equal values have equal hash codes.",
 "Pairs of values are unbounded.",[BI],[('compare_to, equals, get_hash_code',BI)])
f('F06','Byte and word encodings are the minimal C# ones',
 "For every value each byte or word encoding is the minimal two's-complement (or unsigned) encoding C# produces, in the requested order, with the matching byte count and bit length.",
 "All values and options cannot be sampled.",[BI],[('to_byte_array, to_uint32_array, get_bit_length',BI)])
f('F07','Decimal text is exact',
 "The decimal text of every value is its shortest decimal representation and parses back to it.",
 "All values cannot be sampled.",[BI],[('to_string, parse',BI)])
f('F08','Numeric casts are exact or refused',
 "Conversion from any built-in number is exact (truncating fractions) and conversion to one returns the same value or refuses with an overflow error; conversion to double truncates to the nearest representable magnitude as in C#.",
 "Boundary values per type are tested only in part.",[BI,"include/NumericsHelpers.h"],[('cast operators and constructors',BI)])
f('F09','Logarithms match the C# definition',
 "Logarithms in any base agree with the C# definition, including its special cases for negative values and degenerate bases.",
 "All values and bases cannot be sampled.",[BI,"include/NumericsHelpers.h"],[('log',BI)])
f('F10','Python operators give the same values as the C++ operators',
 "Every Python operator and conversion returns the value of the corresponding C++ operation for all operands, with plain ints converted exactly.",
 "All operand combinations cannot be sampled.",[PY],[('operator table',PY)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
