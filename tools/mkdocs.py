#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (both are committed; run this after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS

BI, IMPL, ALG, SL = 'src/BigInteger.cpp', 'src/BigIntegerImpl.cpp', 'src/pgfwd.h', 'src/Slice.h'
FEW = 'The tests compare a handful of literals, and four fixed files of random operands for + - * / % and shifts; '
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), tech=tech, note=note))


p('C01', 'Addition, subtraction, negation, absolute value and ++/-- are exact',
  'For all integers a and b of any size and sign, a+b, a-b, -a, |a|, ++a, a++, --a and a-- have exactly the mathematical value, whether an operand is a big integer or a 64-bit machine integer and whether or not the two operands are the same object. '
  'The result does not depend on how an operand was built or with what it shares storage, and no operand other than the one assigned to changes.',
  ['inputs', 'histories'], 'all pairs of integers up to a few thousand bits (and longer in the thorough tier), all forms of the operators, all routes by which an operand was built',
  FEW + 'carries through a whole operand, cancellation of leading words, the extreme 64-bit operands and operands with shared or oversized storage are not among them.',
  [IMPL, BI], [('addition and subtraction on sign and magnitude', IMPL + ' BigIntegerImpl::addAssign, subAssign'), ('increment, decrement, negate, abs', IMPL + ' BigIntegerImpl::inc, dec, negate, abs'),
   ('word loops', IMPL + ' addMag, subMag, inc, dec'), ('operator forms', BI)])
p('C02', 'Multiplication is exact for all sizes',
  'For all integers a and b of any size and sign, a*b has exactly the mathematical value, for equal and for very different lengths and on both sides of every size at which another algorithm is chosen. '
  'This includes multiplication by zero, by machine integers and of a value with itself, and leaves all other values unchanged.',
  ['inputs'], 'all pairs of integers up to about 640 words and more in the thorough tier, with lengths around the algorithm thresholds and patterns of all-zero and all-one words',
  FEW + 'the recursive algorithm is reached by few sizes, and a carry that is lost there changes only rare products.',
  [IMPL, BI], [('choice of algorithm', IMPL + ' BigIntegerImpl::mul'), ('schoolbook product', IMPL + ' BigIntegerImpl::mul'), ('Karatsuba', IMPL + ' BigIntegerImpl::mulKaratsuba, split')])
p('C03', 'Division truncates towards zero and the remainder has the sign of the dividend',
  'For all integers a and b with b not 0, the quotient is a/b rounded towards zero and the remainder r satisfies a = q*b + r with |r| < |b| and r zero or of the sign of a. '
  'This holds for every way to divide (operators, quotient-and-remainder calls, machine divisors, the same object as dividend and divisor), and the other operand is unchanged.',
  ['inputs'], 'all dividends and divisors, with quotient digits that are estimated too large, divisors with the top bit set or barely set, dividends just below and above multiples of the divisor',
  FEW + 'the corrections of an estimated quotient digit are needed for about one in 2^32 random operands.',
  [IMPL, BI], [('division of magnitudes', IMPL + ' BigIntegerImpl::div, knuthDivImpl'), ('signs of quotient and remainder', IMPL + ' BigIntegerImpl::div'), ('operator forms', BI)])
p('C04', 'Bitwise operations follow infinite two\'s complement',
  'For all integers a and b, a&b, a|b, a^b and ~a equal the results on infinite two\'s-complement bit strings (so ~a = -a-1). Inverting the bits of the magnitude in place keeps the sign and inverts exactly the significant bits of the magnitude (giving zero when nothing is left).',
  ['inputs'], 'all pairs of integers of either sign and of equal or different length, including powers of two and operands whose low words are zero',
  'The tests check a few small literals; borrow through zero low words of negative operands, and results that need one more word, are not sampled.',
  [IMPL, BI], [('word-wise operation on two\'s-complement words', IMPL + ' BigIntegerImpl::andAssign, orAssign, xorAssign and the helper they call'), ('two\'s-complement words', IMPL + ' BigIntegerImpl::getU32'), ('complements', IMPL + ' BigIntegerImpl::notSelf, notBits')])
p('C05', 'Shifts multiply by and floor-divide by powers of two',
  'For every integer a and shift count n >= 0, a<<n equals a*2^n and a>>n equals a/2^n rounded towards minus infinity, as for two\'s-complement integers.',
  ['inputs'], 'all values of either sign and all shift counts from 0 to several thousand, around multiples of 32 and around the length of the value',
  'The tests shift random operands from four fixed files by a few counts; negative values whose shifted-out bits are all zero or all one need particular pairs.',
  [IMPL, BI], [('left shift', IMPL + ' BigIntegerImpl::shiftLeftAssign'), ('right shift with rounding of negative values', IMPL + ' BigIntegerImpl::shiftRightAssign')])
p('C06', 'Comparison is the order of the integers',
  'For all values a and b, the three-way comparison and ==, !=, <, <=, >, >= agree with the order of the integers, in both orders of the operands and also when one is a 64-bit machine integer. Values that are equal as integers compare equal however they were built.',
  ['inputs'], 'all pairs, weighted towards equal values built by different routes, values that differ in one word or one bit, and opposite signs',
  'The tests compare a few literals built in one way each.',
  [IMPL, BI, 'src/BigInteger.h'], [('three-way comparison', IMPL + ' BigIntegerImpl::cmp'), ('operator forms', 'src/BigInteger.h, ' + BI)])
p('C07', 'Text conversion round-trips in every radix from 2 to 36',
  'For every integer and radix from 2 to 36, conversion to text gives the canonical digits (lower case, minus sign, no leading zeros, "0" for zero), and parsing that text gives the same value and reports success. Upper-case digits, a leading plus or minus sign and leading zeros are accepted and give the same value.',
  ['inputs'], 'all integers and radixes, with texts of length around the chunk size of every radix and with digits 0 inside chunks',
  'The tests convert a fixed list of values in few radixes.',
  [IMPL, ALG, 'src/fwd.h'], [('to text by chunks', IMPL + ' BigIntegerImpl::toString'), ('from text by chunks', IMPL + ' BigIntegerImpl::fromString'), ('digits per chunk and radix powers', IMPL + ' tables used by fromString and toString')])
p('C08', 'Malformed number texts are rejected with a report and no crash',
  'Parsing any byte string that is not an optional sign followed by at least one digit of the radix, or with a radix outside 2 to 36, reports failure through the success flag and the status, and leaves a valid value. No byte string makes it crash, hang or look beyond the end of the text.',
  ['inputs'], 'all byte strings, generated as valid texts with one or more defects, and as arbitrary bytes, at every position relative to the chunks',
  'The tests parse a few malformed texts; an invalid character is only noticed or missed depending on its place within a chunk.',
  [IMPL], [('validation of the digits', IMPL + ' BigIntegerImpl::fromString'), ('reporting', 'src/errInfos.h, src/Status.cpp')])
p('C09', 'Import of two\'s-complement bytes is exact',
  'Importing any byte string in little- or big-endian order gives exactly the integer that it denotes in two\'s complement; empty input gives zero.',
  ['inputs'], 'all byte strings, with lengths around multiples of the word size, sign bytes 00, 7f, 80 and ff, runs of zero and ff bytes, in both byte orders and at any alignment',
  'The tests import a few short buffers.',
  [IMPL], [('import', IMPL + ' BigIntegerImpl::assign(const void *, SizeType, bool)'), ('byte order', 'src/fwd.h, src/pgfwd.h')])
p('C10', 'Exported magnitude bytes and two\'s-complement words are exact',
  'Exporting the magnitude writes its bytes, least significant first, without superfluous leading zeros, returns their number, and never writes beyond the given limit. Every two\'s-complement word of a value, at any index, is that of the infinite two\'s-complement representation.',
  ['inputs'], 'all values, all limits below, at and above the length of the magnitude, all word indexes including those beyond the value, before and after changes to the value',
  'The tests export magnitudes of positive operands into buffers that are large enough.',
  [IMPL], [('export', IMPL + ' BigIntegerImpl::copyMagDataTo'), ('two\'s-complement words with a cached first non-zero word', IMPL + ' BigIntegerImpl::getU32')])
p('C11', 'Conversion to and from machine integers is exact or reported',
  'Every 64-bit signed integer converts to a big integer of the same value and back. Converting a big integer to a signed or unsigned 64-bit integer gives its value and reports success if it fits, and otherwise reports an overflow, never a wrong value with a success report.',
  ['inputs'], 'all 64-bit integers and all values around -2^63, 0, 2^63 and 2^64 and multiples of them',
  'The tests convert a few literals; the boundary values are single points of a 2^64 space.',
  [BI, IMPL], [('from int64', IMPL + ' BigIntegerImpl::assign(std::int64_t)'), ('to int64 and uint64', BI + ' BigInteger::getInt64, getUInt64, tryGetInt64, tryGetUInt64 and ' + IMPL + ' toU64')])
p('C12', 'Values are independent although they share storage',
  'After any sequence of constructions, copies, moves, assignments, swaps and in-place operations on any number of variables, every variable holds the value that a model with fully independent variables gives it. In particular no operation changes a variable that it does not name, and using a variable as its own operand is harmless.',
  ['histories'], 'all operation sequences over a handful of variables, including self-assignment, self-operands, chained copies and destruction in any order',
  'The tests do a few copies; stale shared storage shows only after particular sequences of copy, shrink, grow and write.',
  [IMPL, SL, BI], [('copy on write', IMPL + ' BigIntegerImpl::beginWrite and src/Slice.h cloneData'), ('shared slices of storage', SL), ('cached data reset on write', IMPL + ' BigIntegerImpl::beginWrite')])
p('C13', 'An expression evaluates to the value of its C-style reading',
  'For every well-formed infix expression over integer literals (decimal, octal 0..., hexadecimal 0x... and explicit-radix 0<radix>x... forms, in either letter case), registered constants and calls, evaluation gives exactly the integer that the grammar\'s precedence, associativity and integer semantics prescribe, independent of spacing and redundant parentheses, and reports success. Only the selected branch of a conditional contributes.',
  ['inputs', 'programs'], 'all expressions of the grammar, generated with their value computed by an independent reader and evaluator, with random spacing, parentheses and literal forms',
  'The tests evaluate some dozens of fixed expressions; each combination of two adjacent operators, associativity and nesting is a new case.',
  ['src/eval.cpp', 'src/infixExpr/ExprParser.cpp', 'src/infixExpr/ExprTree.cpp', 'src/infixExpr/Token.h', 'src/infixExpr/fwd.cpp'],
  [('tokens and literals', 'src/infixExpr/Token.h, src/infixExpr/fwd.cpp'), ('recursive descent by precedence', 'src/infixExpr/ExprParser.cpp'), ('evaluation callbacks', 'src/infixExpr/ExprTree.cpp'), ('entry', 'src/eval.cpp eval')])
p('C14', 'Parallel evaluation equals sequential evaluation under every schedule',
  'For every expression, number of threads and schedule, parallel evaluation returns what sequential evaluation returns, including the failure status for a malformed expression and the exception thrown by a registered function. It always terminates, runs every selected function call exactly once and never one of an unselected branch.',
  ['schedules', 'programs'], 'all expressions with registered functions, 1 to several threads, all interleavings at memory accesses and synchronisation operations',
  'The tests evaluate a few expressions under whatever schedule occurs.',
  ['src/eval.cpp', 'src/infixExpr/ExprTree.cpp', 'src/parallel/ThreadPool.h', 'src/parallel/SimpleConcurrenceQueue.h'],
  [('tasks in topological order', 'src/eval.cpp peval'), ('results through promises', 'src/infixExpr/ExprTree.cpp pevalTask'), ('workers', 'src/parallel/ThreadPool.h')])
p('C15', 'Malformed expressions are reported, never crash and never give a value',
  'For every byte string that is not a well-formed expression, evaluation reports a failure through the status and returns a valid (empty) value; for every well-formed one it reports none. No byte string makes evaluation crash, hang or read beyond the end of the text.',
  ['inputs'], 'all byte strings, generated as well-formed expressions with token- and byte-level edits, as token soup and as arbitrary bytes; whether a string is well-formed is decided by an independent reader',
  'The tests try a few malformed expressions.',
  ['src/eval.cpp', 'src/infixExpr/ExprParser.cpp', 'src/infixExpr/fwd.cpp', 'src/streams/StringReadStream.h'],
  [('tokenizer errors', 'src/infixExpr/fwd.cpp, src/infixExpr/Token.h'), ('parser errors and end of input', 'src/infixExpr/ExprParser.cpp'), ('stream bounds', 'src/streams/StringReadStream.h')])
p('C16', 'Registered functions and constants are looked up and called faithfully',
  'A registered constant evaluates to its registered value, a registered function is called exactly once per evaluated call with its evaluated arguments in order, and a later registration of the same name replaces the earlier one. An unknown name, or a call with a number of arguments that the function does not accept, is reported as a failure and calls nothing.',
  ['histories', 'programs'], 'all interleavings of registrations and evaluations over several names, fixed and variable arities, nested calls, and calls inside conditionals',
  'The tests register a few functions once and call them correctly.',
  ['src/infixExpr/SymbolTable.h', 'src/infixExpr/ObjectManager.h', 'src/infixExpr/ExprParser.cpp', 'src/infixExpr/ExprTree.cpp'],
  [('symbol table', 'src/infixExpr/ObjectManager.h registe, get'), ('arity check', 'src/infixExpr/ExprParser.cpp'), ('call', 'src/infixExpr/ExprTree.cpp newFunctionCallNode')])
p('C17', 'Fractions are exact and in lowest terms',
  'After any sequence of +, -, *, /, reciprocal and changes of numerator or denominator, a fraction equals the exact rational number and its numerator and denominator have no common factor; operands are unchanged. The greatest common divisor of two non-negative integers is exact.',
  ['inputs', 'histories'], 'all sequences over fractions of either sign with common factors in the parts, including a fraction as its own operand',
  'The tests add a few small fractions.',
  ['src/Fraction.h', 'src/algorithm.cpp'], [('reduction to lowest terms', 'src/Fraction.h'), ('arithmetic', 'src/Fraction.h operators'), ('gcd', 'src/algorithm.cpp gcd')])
p('C18', 'Fraction texts are exact',
  'The text of a fraction and its decimal expansion to n digits denote exactly the fraction and its truncation to n digits after the point, for fractions of either sign and every n.',
  ['inputs'], 'all fractions, including those with an integer part of 0, negative ones between -1 and 0, and expansions with leading zeros after the point',
  'The tests print a few positive fractions.',
  ['src/Fraction.h'], [('decimal expansion', 'src/Fraction.h toDecimal'), ('text', 'src/Fraction.h toString')])
p('C19', 'A zero denominator is always reported',
  'Any operation that would give a fraction a zero denominator (construction, setting the denominator, division by a zero fraction, reciprocal of zero) reports it through the success flag and the status, and never produces a fraction with a zero denominator nor crashes; all other such operations report success.',
  ['inputs', 'histories'], 'all routes to a zero denominator with all representations of zero, mixed with ordinary operations',
  'The tests do not divide by a zero fraction.',
  ['src/Fraction.h'], [('checks and reporting', 'src/Fraction.h constructors, setDen, reciprocal, operator/'), ('status', 'src/Status.cpp')])
p('C20', 'Division by zero is always reported and corrupts nothing',
  'Dividing or taking the remainder by zero, in every form (operators, quotient-and-remainder calls, machine divisor, expressions, the C interface), runs the handler registered for division by zero exactly once; if that handler returns, every value remains valid and usable and operands that are not assigned to are unchanged.',
  ['inputs', 'fault_sequences'], 'all dividends, all representations of zero (also one reached by arithmetic), all forms, with the built-in handler and with registered ones',
  'The tests never divide by zero.',
  [IMPL, BI, 'src/errInfos.cpp', 'src/Status.cpp'], [('check', IMPL + ' BigIntegerImpl::div'), ('report', 'src/errInfos.cpp built-in callbacks')])
p('C21', 'Status codes carry their registered text and run their handler once when set',
  'For every sequence of registrations, setting a registered code on a status makes it report that code\'s most recently registered text and runs its handler exactly once, in the setting call, with the bound arguments and after the code is in place. Unknown codes have the documented placeholder text and no handler, moved statuses keep code and context, and the built-in codes are there from the start.',
  ['histories'], 'all sequences of registrations (also of hundreds of codes, overwriting, arbitrary texts), of setting codes by construction and assignment, of moves, and of context values',
  'The tests register three codes and set them once.',
  ['src/Status.h', 'src/Status.cpp', 'src/errInfos.cpp'], [('registry', 'src/Status.cpp registry, registeImpl, find'), ('setting', 'src/Status.cpp constructor, operator='), ('context', 'src/Status.h setContext, context')])
p('C22', 'Every thread has its own current status',
  'Under every schedule, the current status read by a thread is the one last set by an operation of that thread, through the C++ and through the C interface; operations of other threads never change it. The built-in codes are usable in every thread, also before the program\'s main function runs.',
  ['schedules'], 'all interleavings of several threads that convert, parse and evaluate valid and invalid inputs and read the status in between',
  'The tests use one thread.',
  ['src/Status.cpp', 'c/src/pgbn.cpp'], [('thread-local instance', 'src/Status.cpp getInstance'), ('C instance', 'c/src/pgbn.cpp pgbn_Status_GetGlobalInstance'), ('registry initialised on first use', 'src/Status.cpp registry')])
p('C23', 'The thread pool runs every task exactly once and always terminates',
  'Under every schedule and for every number of workers and tasks, every task added to the pool runs exactly once with its arguments, its future delivers its result or its exception, and destroying the pool returns after all tasks added before have run. A pool of n threads runs n tasks at a time: while fewer than n tasks are blocked, the others go on being run. Tasks of a single-worker pool run in the order of their addition.',
  ['schedules', 'histories'], 'all interleavings of adders, workers and the destroying thread, 1 to several workers, tasks that add tasks, throw or wait for one another',
  'The tests run one program under whatever schedule occurs.',
  ['src/parallel/ThreadPool.h', 'src/parallel/SimpleConcurrenceQueue.h'], [('worker loop', 'src/parallel/ThreadPool.h constructor'), ('termination', 'src/parallel/ThreadPool.h destructor, SimpleConcurrenceQueue.h notifyAllPop'), ('futures', 'src/parallel/ThreadPool.h addTask')])
p('C24', 'The concurrent queue is a linearizable FIFO and loses no wake-up',
  'Under every schedule of pushes, blocking and non-blocking pops, every pushed element is popped at most once, in an order that is a linearization of a FIFO queue, and a blocked pop returns as soon as an element or the permission to give up is there. A push whose condition fails adds nothing and calls its error handler once.',
  ['schedules'], 'all interleavings of several producers and consumers and of the call that lets all consumers give up',
  'The queue has no test of its own.',
  ['src/parallel/SimpleConcurrenceQueue.h'], [('mutex around the queue', 'src/parallel/SimpleConcurrenceQueue.h push, pop, tryPop, empty'), ('condition variable', 'src/parallel/SimpleConcurrenceQueue.h pop, notifyAllPop')])
p('C25', 'The C interface computes the same integers as the mathematics, over any history',
  'After any sequence of creations, copies, assignments, in-place operations and destructions of handles through the C interface, every handle reads as the exact integer that the history gives it, and no operation changes another handle.',
  ['histories'], 'all operation sequences over several handles, including the same handle as both operands and copies that are then changed',
  'One C example does a few operations.',
  ['c/src/pgbn.cpp', 'c/src/pgbn.h'], [('forwarding to the implementation', 'c/src/pgbn.cpp'), ('handle ownership', 'c/src/pgbn.cpp Create*, Destroy, Copy')])
p('C26', 'No valid history causes an invalid memory access, undefined behaviour or a leak',
  'For every history of valid calls, no call reads or writes outside live memory, has undefined behaviour, or leaves memory allocated after all objects involved are gone.',
  ['inputs', 'histories'], 'the generated cases of all the other properties, under address and undefined-behaviour sanitizers and with a heap balance',
  'The tests run without sanitizers and on few inputs.',
  [IMPL, SL, 'src/infixExpr/ExprParser.cpp', 'src/streams/StringReadStream.h', 'c/src/pgbn.cpp'], [('storage and slices', SL), ('in-place algorithms', IMPL), ('expression nodes', 'src/infixExpr/ExprTree.cpp NodePool')])
p('C27', 'Distinct values that share storage can be used by different threads',
  'Under every schedule, threads that each work on their own values get the same results as if run one after another, even when these values were copied from one another and still share storage, and concurrent reads of one value by several threads are correct.',
  ['schedules'], 'all interleavings at memory accesses of threads that read, copy, change and destroy values that started as copies of one another',
  'The tests use no values from several threads.',
  [IMPL, SL], [('shared ownership of storage', SL), ('copy on write', IMPL + ' BigIntegerImpl::beginWrite'), ('lazily cached data', IMPL + ' BigIntegerImpl::getU32')])
p('C28', 'Message formatting substitutes every placeholder exactly',
  'A format text with numbered placeholders, in any order and number, is returned with each placeholder replaced by the text of that argument, or by nothing if there is no argument of that number (numbers with their printf-style limits, booleans, characters, texts, sequences in brackets, pairs, big integers in the given radix) and everything else unchanged; argument texts of any length are inserted whole and not expanded again. The appending form appends exactly that text.',
  ['inputs'], 'all format texts and argument values, including unused and repeated arguments, lone braces, braces inside arguments, and very long results',
  'Formatting has no test of its own; the debug messages use two or three fixed formats.',
  ['src/pgdebug.h', IMPL], [('placeholders', 'src/pgdebug.h format, formatAppend, parseBracket'), ('argument texts', 'src/pgdebug.h transToString'), ('big integers', IMPL + ' transToString')])
p('C29', 'The C interface reports failures and hands out texts faithfully',
  'Creating or assigning from a malformed text or converting a value that does not fit is reported (null, false, status) and otherwise succeeds; texts returned are exact, complete and of the stated length; exported magnitudes respect the limit. Status functions of the C interface behave as those of the C++ interface, with the registered callback receiving its argument.',
  ['inputs', 'histories'], 'all texts, radixes, values around the conversion limits, buffer limits, and sequences of status registrations and settings through the C interface',
  'One C example and one status test cover single successful calls.',
  ['c/src/pgbn.cpp', 'c/src/pgbn.h'], [('parsing', 'c/src/pgbn.cpp pgbn_BigInteger_CreateWithStr, AssignWithStr'), ('conversions', 'c/src/pgbn.cpp GetInt64WithChecking, GetUInt64WithChecking'), ('status', 'c/src/pgbn.cpp pgbn_Status_*'), ('strings', 'c/src/pgbn.cpp pgbn_String_*')])

p('C30', 'A slice behaves as an independent sequence as long as writers take their copy',
  'For every history in which slices are constructed, copied, moved, assigned, swapped, narrowed and dropped, and written to (append, prepend, extension at the front, widening, element and iterator writes) only after cloneData(), every slice holds exactly the elements that independent sequences would hold, with value-initialised elements where it was widened. '
  'A vector that a caller shared with a slice and kept is not changed by such writes either, cloneData() leaves the slice sharing with nobody, and slices that weakEquals() calls equal have equal elements.',
  ['histories'], 'all histories over several slices of integers or texts, including self-assignment, self-append, moved-from slices and parts of parts',
  'The tests do one short sequence on two slices; wrong bounds and stale elements show only after particular sequences of narrowing, sharing and growing.',
  [SL], [('bounds and shared storage', SL + ' Slice::slice, sliced, preExtend, prepend, append'), ('detaching before writes', SL + ' Slice::cloneData'), ('moves', SL)])
p('C31', 'Texts are split into the right tokens, and streams deliver all their characters',
  'For every text without defect, the tokenizer gives exactly its tokens in order (longest operators first, literals with their values in every radix spelling, names with their registered symbols) followed by one end mark, and reports no error; it does not depend on the kind of stream, white space or where tokens touch. '
  'For a text with a defect it gives the tokens before the first defect and the end mark, and reports the code for that defect through its argument and the status of the thread. A StringReadStream, wrapping or copying, moved or not, delivers exactly the characters of its text, then zeros.',
  ['inputs'], 'all texts over the tokens of the grammar with and without white space, with defective literals, unknown names and arbitrary bytes, through every kind of stream',
  'The tests split a few fixed texts; which characters may touch, and which code reports which defect, are combinations they do not sample.',
  ['src/infixExpr/Token.h', 'src/streams/StringReadStream.h', 'src/infixExpr/fwd.h'], [('tokens and literals', 'src/infixExpr/Token.h tokenizer'), ('white space', 'src/infixExpr/fwd.h skipWhiteChar'), ('streams', 'src/streams/StringReadStream.h')])
p('C32', 'Parser, node pools and trees can be used again and keep their meaning',
  'For every history of parses (with one parser re-initialised or with new ones, from valid and malformed texts, into one or several node pools) and of trees built by hand with a pool\'s operations, every valid text gives a tree of nodes of the given pool that evaluates to the value of the text, now and every time later. '
  'Malformed texts give no tree and an error code and do not affect later parses, nodes keep their place and know their index, and existing trees are not changed by later ones.',
  ['histories', 'programs'], 'all sequences of parses, hand-built nodes and repeated evaluations, with pools growing beyond their initial block',
  'The tests parse one text with one parser into the default pool.',
  ['src/infixExpr/ExprParser.h', 'src/infixExpr/ExprParser.cpp', 'src/infixExpr/ExprTree.h', 'src/infixExpr/ExprTree.cpp'], [('re-initialisation', 'src/infixExpr/ExprParser.h init'), ('node pool', 'src/infixExpr/ExprTree.cpp NodePool::newNode, get'), ('evaluation', 'src/infixExpr/ExprTree.cpp')])
p('C33', 'A custom literal hook decides what literals mean, for its thread only',
  'When a thread installs its own literal hook, evaluation (sequential or parallel) in that thread asks it for every literal from left to right with the radix and the digits before and after the point, and uses the values it gives; if it refuses one, the expression is reported as failed with the literal-conversion code. '
  'Other threads, and evaluations after the former hook is restored, are not affected.',
  ['inputs', 'programs'], 'all literal spellings, fractions included, hooks that compute any function of what they are told, and refusals at any literal',
  'No test installs a hook.',
  ['src/infixExpr/fwd.h', 'src/infixExpr/fwd.cpp', 'src/infixExpr/Token.h', 'src/eval.cpp'], [('hook per thread', 'src/infixExpr/fwd.cpp Hooks::getInstance'), ('call of the hook', 'src/infixExpr/Token.h tokenizer')])
p('C34', 'The utilities underneath do what their names say for every input',
  'Bit counts and leading and trailing zero counts of non-zero words, rounded-up division and the visiting of argument lists are exact; digit strings convert to 32- and 64-bit words with the end of the number, or are reported as too large. '
  'The named object store returns the object last registered under a name and keeps pointers from earlier lookups valid, variants hold what was last assigned, and the command line helper calls exactly the callbacks of the options given, in order, with their arguments, and ends the program when one asks for it.',
  ['inputs', 'histories'], 'all words, all digit strings around the word limits in every radix, histories of registrations, assignments and moves, and argument lists',
  'The utilities have no tests of their own, and most of their inputs do not occur in the others.',
  [ALG, 'src/infixExpr/ObjectManager.h', 'src/infixExpr/fwd.h'], [('bit counts and machine words', ALG + ' popcnt, clz, ctz, ceilDivide, cStrToU32'), ('command line', ALG + ' parseCmdSimply'), ('named store', 'src/infixExpr/ObjectManager.h'), ('variant', 'src/infixExpr/fwd.h Variant')])
p('C35', 'The library can be used while static objects are constructed and destroyed',
  'Every operation gives its result when it is used in the constructor of a static object, whatever the order in which the static objects of the program are constructed; operations that an object used in its constructor can be used again in its destructor, after main has returned or exit was called.',
  ['histories'], 'all sequences of operations of every part of the library in a constructor that runs before any other, in main and in the destructor',
  'All tests use the library from main.',
  ['src/errInfos.cpp', 'src/Status.cpp', IMPL, BI, 'src/infixExpr/SymbolTable.h'], [('constant-initialised table of built-in codes', 'src/errInfos.cpp'), ('tables initialised on first use', 'src/Status.cpp registry, ' + IMPL + ' getU64BlockRadix, ' + BI + ' getUInt64, src/infixExpr/SymbolTable.h getInstance')])

p('C36', 'Copies share their digits until one of them is written',
  'Copying, assigning, moving, swapping and passing on integers (also C handles), sign and parity queries, comparison with a 64-bit integer or with a copy, conversion to 64 bits, and negating a value in place or as a copy cost a constant number of steps and bytes whatever the size of the value. '
  'The first write to a copy copies the digits at most once; later writes to it, and writes to a value nobody shares any more, copy nothing. Counting up with ++ (or down with -- below zero) in an unshared value costs an amortised constant per step.',
  ['inputs', 'histories'], 'values of one to thousands of words reached by every construction route, any number and order of copies and writes',
  'The tests look at results only, and a copy that duplicates the digits gives the same results; nothing measures steps or memory.',
  ['src/BigInteger.h', BI, IMPL, SL, 'c/src/pgbn.cpp'], [('copy the pointer, copy base data on write', 'src/BigInteger.h, ' + IMPL + ' cloneMagData, ' + SL + ' cloneData')])
p('C37', 'Work and memory grow no faster than the methods the library uses',
  'Addition, subtraction, bit operations, shifts, comparison and conversion from and to bytes take steps and memory linear in the words involved; a product takes at most the product of the lengths and for long operands grows like divide and conquer, division at most quotient length times divisor length, text the square of the length. '
  'Evaluating an expression takes steps and memory linear in its length, apart from what its operations cost, whatever its shape and whether or not it is well formed, and evaluating it again keeps no further memory; the queue, slices, string streams and the formatter are linear in what passes through them. '
  'What values, slices and queues hold is bounded by a multiple of the largest size they have had, however many operations have been done on them.',
  ['inputs', 'histories'], 'operands of one to thousands of words, expressions of up to tens of thousands of characters of every shape, histories of thousands of operations',
  'The tests use short operands, short expressions and single operations, and measure neither steps nor memory.',
  [IMPL, SL, 'src/eval.cpp', 'src/infixExpr/ExprParser.cpp', 'src/infixExpr/ExprTree.cpp', 'src/infixExpr/Token.h', 'src/infixExpr/SymbolTable.h', 'src/streams/StringReadStream.h', 'src/parallel/SimpleConcurrenceQueue.h', 'src/Fraction.h', 'src/pgdebug.h'],
  [('divide-and-conquer product, schoolbook division, in-place addition', IMPL), ('window on a shared vector, space left behind is reclaimed', SL), ('one pass over the text, nodes of a tree in a pool', 'src/infixExpr/ExprParser.cpp, ExprTree.cpp, Token.h')])

p('C38', 'The error of a malformed expression names its first defect',
  'For every text that is not an expression, the code that eval, peval and the parser report is that of its first defect: characters, literals and names in reading order come before the structure. Invalid characters, a lone \'=\', invalid radixes, fractions, literals without digits, unknown names, unfitting tokens and wrong numbers of arguments have codes of their own. '
  'The status of the thread gets the same code, also when another status is passed in, and for an unfitting token its context holds a tuple of the type of token expected there and a message. The code is set once: its handler runs once, or once for each of the two statuses. What was evaluated before does not matter.',
  ['inputs', 'histories'], 'all texts with one or more defects, in any order and at any depth, after any other texts, through eval, peval and the parser',
  'The tests evaluate a few fixed malformed texts and do not look at the code or the context.',
  ['src/infixExpr/Token.h', 'src/infixExpr/ExprParser.cpp', 'src/infixExpr/ExprParser.h', 'src/eval.cpp', 'src/errInfos.h'],
  [('codes of the tokenizer', 'src/infixExpr/Token.h tokenizer'), ('first error is kept, expected token in the context', 'src/infixExpr/ExprParser.cpp badToken, BADTOK'), ('hand-over to the given status', 'src/eval.cpp parseString')])

p('C39', 'Parallel evaluation uses the threads it is given, and no more',
  'For every expression, number of threads and schedule: with n > 0 threads at most n function calls of a parallel evaluation run at a time, and n of them do whenever n calls of the same height (longest way down to a literal), outside the branches of conditionals, are there to run: they may wait for each other and all come to an end. '
  'A negative number stands for the number of processors. With 0 threads, and in sequential evaluation, every call runs in the calling thread. Evaluations at the same time do not take each other\'s threads.',
  ['schedules', 'programs'], 'all expressions with registered functions that wait for each other, 0 to several threads or the default, one or more callers, all interleavings at memory accesses and synchronisation operations',
  'The tests only look at results, which are the same when nothing runs in parallel.',
  ['src/eval.cpp', 'src/parallel/ThreadPool.h', 'src/parallel/SimpleConcurrenceQueue.h'],
  [('number of threads, sequential evaluation for 0', 'src/eval.cpp peval'), ('all tasks of a level are added before any is awaited', 'src/eval.cpp peval'), ('one thread per worker, one task at a time', 'src/parallel/ThreadPool.h')])

p('C40', 'Functions, hooks and handlers may themselves use the library',
  'What the library calls back may use the library: for every expression, a registered function may evaluate further expressions while it runs (sequentially, in parallel, with a parser of its own; also malformed ones, also itself, some tens of levels deep, also catching what an inner function throws), and the value of the whole is that of evaluating each text where it is called. '
  'The same holds for the hook for literals and for the handlers of status codes, including success and division by zero, where arithmetic and evaluation work as anywhere else and errors reach their handlers. A status given to one evaluation tells about that evaluation only. '
  'Arguments and results that a function keeps, and a value it hands out again and again, do not change. No nesting of evaluations blocks for ever, whatever threads they use.',
  ['inputs', 'histories', 'schedules'], 'all expressions over registered functions that evaluate generated texts, depths to some 70, all routes of evaluation on either level, hooks and handlers that calculate, all interleavings',
  'The tests register functions that only calculate, and never call the library from inside a callback; state kept between calls, shared buffers, shared threads or locks held while calling back show only then.',
  ['src/eval.cpp', 'src/infixExpr/ExprTree.cpp', 'src/infixExpr/ExprParser.cpp', 'src/infixExpr/Token.h', 'src/Status.cpp', 'src/parallel/ThreadPool.h'],
  [('calls of registered functions', 'src/infixExpr/ExprTree.cpp builtinFuncEvalCallback'), ('pool of nodes and of threads per evaluation', 'src/eval.cpp'), ('call of the hook', 'src/infixExpr/Token.h tokenizer'), ('call of a handler', 'src/Status.cpp Status::callback')])

SEQ = 'property-based testing: choice-sequence generators with coverage guidance and shrinking, against an independent reference model (GMP)'
TECH = {'C08': 'property-based testing with mutated and arbitrary byte strings against an independent recogniser', 'C12': 'stateful model-based property testing against independent GMP variables, with shrinking',
        'C13': 'grammar-based generation of expressions, compared with an independent reader and evaluator over GMP', 'C15': 'mutation- and grammar-based fuzzing of expressions against an independent recogniser',
        'C16': 'stateful model-based property testing of registrations and evaluations', 'C17': 'stateful model-based property testing against GMP rationals', 'C20': 'property-based fault injection: generated zero divisors with the built-in and registered handlers',
        'C21': 'stateful model-based property testing of the status registry', 'C25': 'stateful model-based property testing over C handles against GMP', 'C26': 'property-based testing under address/undefined-behaviour sanitizers and a heap balance',
        'C30': 'stateful model-based property testing of slices against plain vectors', 'C31': 'grammar- and mutation-based generation of texts, compared with an independent tokenizer', 'C32': 'stateful model-based property testing of parser, pools and trees against an independent reader and evaluator',
        'C33': 'property-based testing of expressions with generated hooks, against the hook applied to the generated pieces', 'C34': 'property-based testing of the utilities against loops, GMP and reference containers', 'C35': 'property-based testing with generated scripts run in static constructors and destructors of a fresh process, against GMP',
        'C36': 'property-based testing with counted control-flow edges and allocated bytes against constant and linear bounds', 'C37': 'property-based testing with counted control-flow edges, allocated and held bytes against growth bounds',
        'C40': 'property-based testing of generated programs of callbacks that evaluate expressions, against an independent reader and evaluator, also over generated schedules',
        'C38': 'mutation- and grammar-based fuzzing of malformed expressions, the report compared with the first defect an independent reader finds',
        'C28': 'property-based testing of generated formats against an independent formatter', 'C29': 'stateful property-based testing of the C interface against a model'}
for k in ('C14', 'C22', 'C23', 'C24', 'C27', 'C39'):
    TECH[k] = 'property-based testing over generated programs and generated schedules (own deterministic scheduler at memory accesses and synchronisation calls), against a reference model'
NOTE = 'Random and coverage-guided search of bounded size: a failure found is real (replayed three times before it is reported), absence of one is evidence over the cases counted in the evidence file. Trusts the engine, the reference (GMP or the model in harness/) and clang.'
NOTES = {k: NOTE + ' Schedules are sequentially consistent interleavings; reorderings that only a weak memory model allows are not explored.' for k in ('C14', 'C22', 'C23', 'C24', 'C27', 'C39')}

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps({k: x[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='python3 run.py --setup', checks=[], not_applicable=[],
           notes='run.py builds the library from /repo (no hooks in /repo are used) and the harness of the property, then searches; run.py ID --replay FILE replays a case.')
for x in P:
    i = x['id']
    if i in PROPS:
        man['checks'].append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py %s --tier thorough' % i, technique=TECH.get(i, SEQ), level='exploration', level_note=NOTES.get(i, NOTE)))
    else:
        man['not_applicable'].append(dict(property=i, reason='check under construction'))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
