# Writes properties.jsonl (kept as a script only so that the text stays readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','UTF decoding never leaves the input and moves the cursor exactly',
  'For every byte or code-unit span and every encoding (UTF-8, WTF-8, UTF-16, UTF-32, ASCII, Latin-1), decoding a rune from the front or the back reads only inside the span, and either yields a rune and shortens the span by exactly the number of code units consumed (1 to the encoding maximum), or yields an error and leaves the span unchanged. The rune yielded is always in the encoding\'s repertoire and re-encodes to exactly the code units consumed.',
  ['inputs'],'all spans of any length and content, all six encodings, both directions',
  'Tests decode a handful of well-formed literals; truncated, overlong, surrogate and lone-continuation inputs at arbitrary lengths are not sampled.',
  ['best/text/internal/utf.h','best/text/utf8.h','best/text/utf16.h','best/text/utf32.h','best/text/ascii.h','best/text/rune.h'],
  [('decode/undecode size tables','best/text/internal/utf.h'),('encoding traits','best/text/utf8.h, utf16.h, utf32.h, ascii.h'),('rune::decode/undecode','best/text/rune.h')],
  observe=['result of rune::decode()/undecode()','remaining span'])
p('C02','Encoding a rune writes the standard form and decodes back to it',
  'For every rune and every encoding, encoding into a span either writes exactly the code units the Unicode standard prescribes at the front of the span, touches nothing beyond them and advances by exactly that many, or reports that the rune is not representable or the space is too small and writes nothing. Decoding the written units (front or back) gives the same rune back, and the predicted encoded size equals the number of units written.',
  ['inputs'],'all 1,114,112 runes (surrogates where allowed), all six encodings, every buffer size and prior content',
  'Tests encode a few dozen characters into large-enough buffers.',
  ['best/text/internal/utf.h','best/text/rune.h','best/text/utf8.h','best/text/utf16.h','best/text/utf32.h','best/text/ascii.h'],
  [('encode8/encode16','best/text/internal/utf.h'),('rune::encode/size','best/text/rune.h')])
p('C03','Text validation accepts exactly the well-formed sequences',
  'For every span, validating it as UTF-8, WTF-8, UTF-16, UTF-32, ASCII or Latin-1 answers true exactly when the whole span is a concatenation of well-formed encodings of permitted runes, without reading outside it. In particular truncated, overlong and lone-continuation sequences and (outside WTF-8) surrogates are always rejected, so a best::text can only ever be built from well-formed data.',
  ['inputs'],'all spans of any length and content',
  'Tests check a list of literals; the accept set is over all sequences of any length.',
  ['best/text/internal/utf.h','best/text/utf8.h','best/text/utf16.h','best/text/rune.h','best/text/str.h'],
  [('validate_utf8_fast','best/text/internal/utf.h'),('rune::validate','best/text/rune.h'),('text::from','best/text/str.h')])
p('C04','Rune construction, classification and digit conversion match Unicode',
  'For every 32-bit integer, converting to a rune succeeds exactly for Unicode scalar values (plus surrogates in the allowing variant); the ASCII/plane/surrogate predicates and ASCII case conversions agree with their defining code-point ranges for every rune. Digit conversion in every base 2..36 is the standard mapping, is inverse in both directions, and rejects everything else; a base above 36 crashes rather than answering.',
  ['inputs'],'every 32-bit value, every rune, every base',
  'Tests spot-check individual characters.',
  ['best/text/rune.h'],[('rune::from_int and friends','best/text/rune.h'),('to_digit/from_digit','best/text/rune.h')])
p('M01','Overflow-tracking arithmetic reports overflow exactly and never lies',
  'For every pair of integers of every width and signedness (operands of different types being first converted to their common type), adding, subtracting, multiplying, dividing, taking remainders, shifting and negating through the overflow type gives the two\'s-complement wrapped value and an overflow flag that is set exactly when the mathematical result does not fit or an operand had already overflowed. Saturating operations give the nearest representable value, strict access crashes exactly on overflow, and ceiling division is the mathematical ceiling with overflow reported exactly.',
  ['inputs'],'all operand pairs, all widths and signedness combinations used',
  'Tests try a few boundary values of int; the claim ranges over 2^128 operand pairs.',
  ['best/math/overflow.h','best/math/int.h'],[('overflow<T> operators','best/math/overflow.h'),('saturating_*, ceildiv, div','best/math/overflow.h')])
p('M02','Integer comparison, casts and min/max follow mathematical order',
  'Comparing integers of mixed width and signedness, testing whether a value fits a type, checked casting, minimum/maximum and their selection in tuples all behave as on the mathematical integers for every value. A checked cast yields the same number exactly when it fits and nothing otherwise.',
  ['inputs'],'all values of all pairs of integer types',
  'Tests use a handful of mixed-sign literals.',
  ['best/math/int.h','best/math/bit.h'],[('int_cmp, int_fits, checked_cast','best/math/int.h'),('min/max','best/math/int.h')])
p('M03','Bit operations and power-of-two helpers are exact for every value',
  'Counting, rotating, scanning and masking bits, sign and most-significant-bit queries, and shifts by arbitrary amounts give the textbook result for every value of every unsigned width; shifts by the width or more never cause undefined behaviour. The next power of two is the least power of two strictly greater than the argument, is_pow2 is exact, and the checked variant reports failure exactly when no such power fits the type.',
  ['inputs'],'all values, all shift/rotate amounts',
  'Tests try a few constants.',
  ['best/math/bit.h'],[('shift/rotate/count helpers','best/math/bit.h'),('next_pow2','best/math/bit.h')])
p('M04','Integer parsing accepts exactly the numbers that fit and returns them',
  'For every rune string and base, parsing an integer returns the mathematical value of the digits when the string is an optional sign followed by one or more base digits and the value fits the requested type, and an error otherwise; it never wraps, never accepts an empty digit string, and never reads outside the string.',
  ['inputs'],'all strings of any length, every base 2..36, all integer types',
  'Tests parse a few literals; digit strings are unbounded.',
  ['best/math/conv.h'],[('atoi','best/math/conv.h'),('fast/slow digit loops','best/math/conv.h')])
p('B01','Range bounds resolve to the documented sub-interval or are rejected',
  'For every combination of start, end/inclusive-end/count and every sequence length, resolving bounds yields exactly the documented half-open interval when it lies inside the sequence and fails (or crashes, in the indexing form) in every other case, including an end or inclusive end before the start and when the arithmetic would overflow; a resolved interval never reaches past the length. If several ends are given, end wins over inclusive-end, which wins over count.',
  ['inputs','configurations'],'every start, end, count and length over the full size_t range',
  'Tests enumerate small values; overflow near the top of the range and combinations are not covered.',
  ['best/iter/bounds.h','best/iter/bounds.cc'],[('normalize / try_compute_count','best/iter/bounds.h'),('crash reporting','best/iter/bounds.cc')])
p('B02','Integer ranges iterate exactly the integers they denote',
  'For every integer range of any width and signedness (without an end it runs through the maximum of the type; an end before the start denotes the empty range), iterating forward, backward or in any mixture yields exactly the integers of the range, each once, in order, and then stops; its size hint and count equal the number left to yield (whenever that number fits a size_t), and last agrees with the iteration.',
  ['inputs','histories'],'every bound pair of an integer type, every interleaving of front/back steps',
  'Tests iterate a few short ranges.',
  ['best/iter/bounds.h'],[('int_range::iter','best/iter/bounds.h')])
p('S01','Span access stays inside the span or crashes',
  'For every span and every index or range, subscripting and slicing return the addressed element or sub-span when it lies inside the span and crash otherwise, and the optional-returning forms return none exactly where the subscripting forms crash. First/last/take/split accessors select exactly the documented elements, and no accessor ever touches memory outside the span.',
  ['inputs'],'every span length, index and range; dynamic and fixed extent',
  'Tests index short arrays at a few positions.',
  ['best/memory/span.h','best/iter/bounds.h','best/memory/ptr.h'],[('operator[] / at','best/memory/span.h'),('first/last/take/split','best/memory/span.h')])
p('S02','Span search finds exactly the first or last match',
  'For every haystack and every needle (element, sub-span or predicate), find returns the least matching position, rfind the greatest, and none exactly when there is no match (an empty needle is found at position 0 by either); contains, starts_with, ends_with, strip and split agree with element-wise comparison. The vectorised byte paths give the same answers as the element-wise definition for every element type and never read outside either span.',
  ['inputs'],'every haystack/needle length and content, for one-byte and wider elements',
  'Tests search short literals; alignment of byte matches inside wider elements and long inputs are not sampled.',
  ['best/memory/span.h','best/memory/internal/bytes.h'],[('find/rfind/split','best/memory/span.h'),('search_memmem, memchr paths','best/memory/internal/bytes.h')])
p('S03','Span equality and ordering are element-wise and lexicographic',
  'For every pair of spans, equality holds exactly when lengths and all elements are equal, and the ordering is the lexicographic ordering of elements; the byte-comparison fast path gives the same answer as the element-wise definition for every element type (plain char stands for a byte, as in text).',
  ['inputs'],'every pair of spans of any length and element values, signed, unsigned and multi-byte elements',
  'Tests compare a few small arrays.',
  ['best/memory/span.h','best/memory/internal/bytes.h'],[('operator==, operator<=>','best/memory/span.h'),('bytes_internal::compare','best/memory/internal/bytes.h')])
p('S04','Binary search on a sorted span returns a correct position',
  'For every span sorted by the key, bisecting returns the position of an element equal to the key when one exists, and otherwise the insertion position that keeps the span sorted; it always terminates and never probes outside the span.',
  ['inputs'],'every sorted span of any length and every key',
  'Tests bisect one small array.',
  ['best/memory/span.h'],[('bisect','best/memory/span.h')])
p('S05','In-place span operations permute or fill exactly the span',
  'Reversing, swapping, sorting, copying between spans (as many elements as both hold) and shifting a range inside a span produce exactly the documented element sequence for every length, and leave every element outside the affected range untouched; swapping an element outside the span crashes.',
  ['inputs'],'every span length, content and index',
  'Tests use arrays of a few elements.',
  ['best/memory/span.h','best/memory/internal/bytes.h'],[('swap/reverse/copy_from/emplace_from/shift_within','best/memory/span.h'),('copy_impl, relo_overlapping','best/memory/ptr.h'),('sort','best/memory/span_sort.h')])
p('V01','A vector always holds exactly the sequence its operations describe',
  'After any push, pop, insert, splice, remove, erase, truncate, resize, clear, assign, reserve or shrink, in inline or heap mode and across mode changes, the vector\'s length and elements are exactly those of the mathematical sequence after the same operation; out-of-range positions crash. Capacity is never below the length and reserve guarantees the room it was asked for.',
  ['inputs','histories'],'every prior state (length, capacity, inline/heap, contents) and every argument',
  'Tests run short fixed scripts; the claim is per operation from an arbitrary state.',
  ['best/container/vec.h'],[('splice_within/resize/reserve','best/container/vec.h'),('inline/heap size encoding','best/container/vec.h')],
  state=[('size/inline flag','length and storage mode'),('data','element storage')])
p('V02','Containers create and destroy every element exactly once and leak nothing',
  'Across any sequence of vector operations, copies, moves, self-assignment and destruction, every element constructed is destroyed exactly once, no destroyed or uninitialised element is ever read, assigned or destroyed, heap blocks are freed exactly once with the layout they were allocated with, and nothing remains allocated at the end. Moved-from vectors are empty and usable.',
  ['inputs','histories'],'every prior state and operation; trivial and non-trivial element types; inline and heap storage',
  'Tests track destructor counts for a few scripts.',
  ['best/container/vec.h','best/memory/span.h','best/memory/ptr.h','best/memory/internal/ptr.h'],[('move_construct/destroy/splice','best/container/vec.h'),('relocate/destroy helpers','best/memory/span.h, best/memory/ptr.h')])
p('O01','Option, result and choice always know and return the active alternative',
  'For every value and every operation, an option, result or choice reports exactly the alternative last stored, returns exactly the value stored there, and crashes when a different alternative is demanded; map, then, filter, or-else style combinators apply their callback exactly when and to what is documented and pass other alternatives through unchanged. This holds for plain, reference, void and niche-packed payloads alike.',
  ['inputs','histories'],'every payload value and state, every transition between alternatives',
  'Tests try a few states per method.',
  ['best/container/option.h','best/container/result.h','best/container/choice.h','best/container/internal/choice.h','best/container/pun.h'],[('tagged/niched storage','best/container/internal/choice.h'),('combinators','best/container/option.h, result.h')])
p('O02','Option, result, choice and box manage payload lifetimes exactly',
  'Under construction, copy, move, every assignment between alternatives, self-assignment, emplacement, take/reset and destruction, each payload object is constructed once and destroyed once, none is used outside its lifetime, and heap memory owned by a box is freed exactly once with its allocation layout.',
  ['histories','inputs'],'every pair of source/target states and every operation; a payload type that detects misuse',
  'Tests count destructors for a few transitions.',
  ['best/container/internal/choice.h','best/container/option.h','best/container/box.h','best/container/object.h'],[('emplace and special members','best/container/internal/choice.h'),('box special members','best/container/box.h')])
p('O03','Comparisons of options, results, choices and rows are lawful',
  'Equality and ordering of options (none below every value), results, choices (by alternative, then payload) and rows (lexicographic) are exactly the documented orders for all values: reflexive, antisymmetric, transitive, and consistent between ==, < and <=>; the ordering combinators (reverse, chaining) agree with them.',
  ['inputs'],'every pair of values and states',
  'Tests compare a few pairs.',
  ['best/container/option.h','best/container/choice.h','best/container/result.h','best/container/row.h','best/base/ord.h'],[('operator==/<=>','best/container/option.h, choice.h, result.h, row.h'),('best::ord helpers','best/base/ord.h')])
p('R01','Rows store, select and rearrange their elements faithfully',
  'For every element value, a row returns at each position (or by type) the value stored there, through every reference category; joining, slicing, inserting, removing, updating, selecting and applying produce rows whose elements are exactly the documented ones, with reference elements still aliasing the originals.',
  ['inputs'],'every element value; representative row shapes including references, empty and void elements',
  'Tests check fixed literals.',
  ['best/container/row.h','best/container/internal/row.h'],[('indexing and splice','best/container/row.h'),('storage','best/container/internal/row.h')])
p('L01','Layouts and allocations have the size and alignment they promise',
  'Array and struct layouts equal the C++ layout rules for every count and detect size overflow instead of wrapping. The default allocator returns, for every layout, a block of at least that size at that alignment; zeroed allocation is all zero; reallocation preserves the common prefix of the contents; deallocation returns exactly the block obtained, for ordinary and over-aligned layouts.',
  ['inputs'],'every size, power-of-two alignment and count; every content and old/new layout pair',
  'Tests allocate a handful of layouts.',
  ['best/memory/layout.h','best/memory/internal/layout.h','best/memory/allocator.h','best/memory/allocator.cc'],[('layout arithmetic','best/memory/layout.h'),('over-aligned path','best/memory/allocator.cc')])
p('F01','Integers format to their exact digits with the requested padding',
  'For every integer of every width, base, sign, alternate-form flag, width, fill and alignment, the formatted text is the sign, prefix and shortest digit string of exactly that value, padded to at least the requested width on the documented sides; formatting never overflows its scratch buffer or has undefined behaviour, including for the most negative value.',
  ['inputs','configurations'],'every integer value and every format specification',
  'Tests format a few dozen numbers.',
  ['best/text/internal/format_impls.h','best/text/format.cc','best/text/format.h'],[('integer BestFmt','best/text/internal/format_impls.h'),('compute_padding','best/text/format.cc')])
p('F02','Format templates parse to the documented directives or are rejected',
  'For every template string, the parser stays inside the string, terminates, and either reports exactly the literal chunks and interpolations (index, alignment, fill, flags, width, precision, method) the documented grammar assigns to it or rejects it; a validated template never refers to a missing argument.',
  ['inputs'],'every byte string and argument count',
  'Tests try a few templates.',
  ['best/text/internal/format_parser.h','best/text/format.h'],[('visit_template','best/text/internal/format_parser.h'),('validate','best/text/internal/format_parser.h')])
p('T01','Text slicing and iteration respect rune boundaries',
  'For every valid text and every range, slicing succeeds exactly when both ends are rune boundaries inside the text and returns exactly those code units; iterating runes forward or backward visits exactly the encoded runes at their positions and ends; prefix/suffix stripping and splitting return exactly the documented pieces, whose concatenation with the separators is the original.',
  ['inputs','histories'],'every well-formed text, every range, rune, pattern',
  'Tests slice a few literals.',
  ['best/text/str.h','best/text/rune.h'],[('operator[]/at/is_rune_boundary','best/text/str.h'),('rune iterators','best/text/str.h'),('split/strip','best/text/str.h')])
p('T02','String building appends exactly the encoded runes or changes nothing',
  'Pushing a rune or string onto a text buffer appends exactly its encoding and reports success, or reports failure and leaves the contents as before; lossy pushes substitute the documented replacement; truncating crashes instead of cutting a character. The contents are well-formed after every operation.',
  ['inputs','histories'],'every rune, every source text in any encoding, every prior content',
  'Tests push short literals.',
  ['best/text/strbuf.h'],[('push/push_lossy/truncate','best/text/strbuf.h')])
p('D01','Type-erased calls reach the object they were created from',
  'A function reference or dynamic interface created from any callable or object invokes exactly that object with exactly the arguments given and returns its result, for free functions, closures and member implementations; boxed dynamic objects are copied and destroyed through the right type\'s operations and memory layout.',
  ['inputs','histories'],'every argument value and captured state, representative callable and interface shapes',
  'Tests invoke a few lambdas.',
  ['best/func/fnref.h','best/func/internal/fnref.h','best/func/dyn.h','best/func/internal/dyn.h','best/container/box.h'],[('fnref thunks','best/func/internal/fnref.h'),('vtables','best/func/internal/dyn.h')])
p('G01','Deferred actions, taps and guards run exactly as often as promised',
  'A deferred action runs exactly once on every exit from its scope unless cancelled or already run; a guard returns early exactly when its operand is empty or an error, passing that error on; taps pass their value through and compose in order.',
  ['inputs','histories'],'every guard state, early-exit path and operand value',
  'Tests try single cases.',
  ['best/func/defer.h','best/func/tap.h','best/base/guard.h'],[('defer','best/func/defer.h'),('BEST_GUARD','best/base/guard.h'),('tap','best/func/tap.h')])
p('I01','Iterator adaptors yield the documented sequence',
  'For every source sequence, map, inspect, enumerate, take, rev, count, last and collecting into a vector yield exactly the documented elements in order, each source element being consumed at most once, and size hints bracket the number of elements actually yielded.',
  ['inputs','histories'],'every source length and content, every take count, every mixture of front and back steps',
  'Tests run fixed short sequences.',
  ['best/iter/iter.h','best/container/vec.h','best/memory/span.h'],[('adaptors','best/iter/iter.h'),('span iterators','best/memory/span.h')])
p('A01','Command-line parsing assigns every argument or reports an error',
  'For every argument vector, the command-line parser terminates, never reads outside the arguments, and either assigns each flag and positional exactly the values the documented syntax gives it or returns an error naming the offending argument.',
  ['inputs'],'every argument vector and flag schema',
  'Tests parse fixed command lines.',
  ['best/cli/parser.cc','best/cli/parser.h','best/cli/cli.h'],[('parser','best/cli/parser.cc')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),[x['id'] for x in P if len(x['title'])>80])
