# The properties: P(id, title, statement, quantified over, quantifier text, why tests cannot, files, mechanisms)
PROPS = []
def P(id, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
L='src/mosmllib/'; R='src/runtime/'

P('C01','Integer arithmetic is exact or raises Overflow or Div',
  'For all integers x and y, x+y, x-y, x*y, ~x and abs x (and the Int structure\'s versions, min, max, sign, compare and the comparison operators) yield the mathematically exact result when it is representable as an int and raise Overflow otherwise. x div y and x mod y round towards negative infinity, Int.quot and Int.rem towards zero, they raise Div exactly when y = 0, and Overflow exactly when the quotient is not representable.',
  ['inputs'],'all pairs of 63-bit integers','the tests check a few dozen literal operand pairs',
  [R+'interp.c',R+'ints.c',L+'Int.mlp'],[('overflow-checking arithmetic instructions','src/runtime/interp.c'),('Int library functions','src/mosmllib/Int.mlp')])
P('C02','Word and Word8 operations are exact arithmetic modulo 2^63 and 2^8',
  'For all words, + - * are computed modulo the word size, div and mod are unsigned (raising Div exactly for divisor 0), the bitwise operations and shifts (including shifts by amounts at or above the word size, and arithmetic right shift) act on exactly the word\'s bits, and comparisons are unsigned. Conversions to and from int wrap or sign-extend as documented and the checked ones raise Overflow exactly when the value does not fit.',
  ['inputs'],'all words, all shift counts, all integers converted','tests use a handful of literals per operation',
  [R+'interp.c',L+'Word.mlp',L+'Word8.sml'],[('unsigned arithmetic and shift primitives','src/runtime/interp.c'),('conversion functions','src/mosmllib/Word.mlp')])
P('C03','Int, Word and Bool text conversions round trip and follow the grammar',
  'For every radix, Int.fmt, Word.fmt and Word8.fmt yield the canonical numeral of the value and scan applied to it gives the value back; toString and fromString agree with them. On any input, scan accepts exactly the documented numeral grammar (leading whitespace, sign or 0w/0x prefixes, digits of the radix), yields the numeral\'s value, leaves the stream at the first character outside the numeral, and raises Overflow exactly when the value is not representable; Bool.scan accepts exactly true and false in any letter case. Integer and word literals in source text denote exactly their value or are rejected as too large.',
  ['inputs'],'all values and all short character sequences, for every radix','the tests list a few numerals per radix',
  [L+'Int.mlp',L+'Word.mlp',L+'Word8.sml',L+'Bool.sml',R+'mosml.c'],[('conv/scan functions','src/mosmllib/Int.mlp'),('native decimal conversion','src/runtime/mosml.c')])
P('C04','Structural equality, ordering and hashing agree with the values',
  'Polymorphic equality on values built from integers, characters, strings, words, tuples, records, lists and constructors is true exactly when they are structurally equal, and reference-like values are equal exactly when they are the same object. String and other built-in comparisons are total orders agreeing with equality (unsigned bytewise lexicographic for strings), and the polymorphic hash function gives equal results on equal values.',
  ['inputs'],'all values up to a size bound','tests compare a few literals; they never build values that differ only in one deep position or in a length/padding byte',
  [R+'compare.c',R+'str.c',R+'hash.c',L+'Polyhash.sml'],[('structural comparison','src/runtime/compare.c'),('string comparison','src/runtime/str.c'),('hash_univ_param','src/runtime/hash.c')])
P('C05','Values written with the serializer are read back equal',
  'Any value built from integers, strings, tuples, constructors, closures-free heap structures with sharing and cycles that is output with the runtime\'s value serializer is read back as a structurally equal value with the same sharing, for small and large integers, strings of any length and blocks of any tag. Bytecode executables themselves load through the same route.',
  ['inputs'],'all values up to a size bound','the tests serialize nothing but compiled units',
  [R+'extern.c',R+'intern.c',R+'md5sum.c',L+'Mosml.sml'],[('extern_val','src/runtime/extern.c'),('intern_val','src/runtime/intern.c')])
P('C06','Garbage collection never changes what a program computes',
  'Wherever minor or major collections strike during execution, every reachable value keeps its contents and identity, references and arrays updated after being promoted keep their new (possibly young) contents, and the program computes the same results and exceptions as if no collection had occurred.',
  ['schedules'],'every placement of a collection among the program\'s allocations (and every slice of incremental marking and sweeping)','tests run each program at one collection schedule decided by heap sizes',
  [R+'minor_gc.c',R+'major_gc.c',R+'memory.c',R+'memory.h',R+'gc.h',R+'interp.c',R+'roots.c'],[('minor collection and remembered set','src/runtime/minor_gc.c'),('incremental mark and sweep','src/runtime/major_gc.c'),('modify barrier','src/runtime/memory.c')])
P('C07','The heap allocator hands out disjoint, correctly sized blocks',
  'For every sequence of allocations of any sizes interleaved with frees by the collector, each allocated block lies within the heap, has the requested size, tag and colour, and overlaps no other live block or the free list, and freed neighbours are merged without losing or duplicating words.',
  ['histories'],'all sequences of allocation and release requests up to a length','tests never look at the free list and hit few of its shapes',
  [R+'freelist.c',R+'memory.c',R+'alloc.c'],[('first-fit free list with merging','src/runtime/freelist.c'),('heap expansion','src/runtime/memory.c')])
P('C08','Exceptions reach the innermost matching handler with their argument',
  'A raised exception is handled by the innermost dynamically enclosing handler one of whose patterns matches its constructor and argument, generative exceptions are distinguished by declaration instance, non-matching handlers re-raise the same exception, and after handling, bindings and references have the values they had in the order of evaluation. Built-in failures (Match, Bind, Div, Overflow, Subscript, Size, Chr, Domain) raise exactly their own exception.',
  ['inputs','programs'],'all inputs of a corpus of programs with nested handlers, generative exceptions and raising primitives','the tests raise and handle in a few fixed patterns',
  [R+'interp.c',R+'fail.c','src/compiler/Back.sml','src/compiler/Match.sml'],[('trap frames','src/runtime/interp.c'),('exception numbering','src/compiler/Front.sml')])
P('C09','Function calls, currying and closures behave as the language defines',
  'Applying a curried function of any arity to fewer, exactly as many, or more arguments than its definition gives the same result as the equivalent sequence of single applications; closures see the values of their free variables at creation, mutually recursive functions and tail calls work to any depth without disturbing callers\' variables, and deep non-tail recursion grows the stack transparently.',
  ['inputs','programs'],'all arguments of a corpus of programs with partial and over-application, deep recursion and mutual recursion','tests exercise a few arities; the stack is rarely reallocated in the middle of an application',
  [R+'interp.c',R+'stacks.c','src/compiler/Back.sml','src/compiler/Emitcode.sml'],[('apply/grab/restart instructions','src/runtime/interp.c'),('stack growth','src/runtime/stacks.c')])
P('C10','Pattern matching selects the first matching rule',
  'For every value, case, fn, fun, let and handle matches bind the variables of the first rule whose pattern matches and evaluate its right-hand side; when no rule matches, Match (or Bind) is raised. This holds for constants of every type, nested and layered patterns, lists, records, refs, exceptions and datatypes of any number of constructors, regardless of the order or overlap of the rules.',
  ['inputs','programs'],'all values of the matched types, for a corpus of matches covering each kind of switch','tests match one or two values against each pattern',
  ['src/compiler/Match.sml','src/compiler/Front.sml','src/compiler/Back.sml',R+'interp.c'],[('decision trees','src/compiler/Match.sml'),('switch and test instructions','src/runtime/interp.c')])
P('C11','Compiled expressions evaluate as the Definition of Standard ML says',
  'Evaluation is left to right, exactly once and only when required (andalso, orelse, if, while, sequence, handle), records and tuples select the named fields, let and local bindings scope lexically with shadowing, overloaded operators act at their resolved type, structures, functors and opens expose the right components, and constant folding or inlining never changes results or the exceptions raised.',
  ['inputs','programs'],'all inputs of a corpus of programs covering each expression and declaration form','tests run each construct on fixed values',
  ['src/compiler/Front.sml','src/compiler/Back.sml','src/compiler/Emitcode.sml','src/compiler/Tr_env.sml','src/compiler/Prim_opt.sml'],[('lambda-code generation','src/compiler/Front.sml'),('primitive optimisation','src/compiler/Emitcode.sml')])
P('C12','Input and output channels deliver exactly the bytes written, in order',
  'Bytes written through TextIO or BinIO output functions reach the file in order, exactly once and completely after flushOut or closeOut, however the operating system splits, shortens or interrupts the writes; input functions deliver exactly the file\'s bytes in order with correct end-of-file, line and lookahead behaviour however reads are split. An operating-system error is reported as Io (or SysErr) rather than as lost or duplicated data, and operations on closed streams fail.',
  ['fault_sequences','inputs'],'all contents up to a length, all sequences of calls and all short, interrupted or failing transfers','tests use regular files, where transfers are never short or interrupted',
  [R+'io.c',L+'TextIO.sml',L+'BinIO.sml'],[('channel buffers','src/runtime/io.c'),('stream functions','src/mosmllib/TextIO.sml')])
P('C13','String and character functions agree with their definitions',
  'String.sub, substring, extract, concat, concatWith, implode, explode, map, translate, tokens, fields, isPrefix/isSuffix/isSubstring, compare, collate and the comparison operators, and Char\'s classification, conversion, chr/ord, succ/pred functions yield what their Basis definition says for every argument, raising Subscript, Chr or Size exactly when an index, code or length is out of range.',
  ['inputs'],'all strings up to a length and all index arguments','tests try a few strings and indices',
  [L+'String.sml',L+'Strbase.sml',L+'Char.sml',R+'str.c'],[('bounds tests','src/mosmllib/String.sml'),('block move primitives','src/runtime/str.c')])
P('C14','Character and string escapes round trip',
  'For every character and string, toString yields printable ASCII with the SML escape sequences and fromString (and scan) reads it back to the same value; toCString and fromCString do so for C escapes. On malformed escapes fromString stops or yields NONE as documented and never yields a wrong character.',
  ['inputs'],'all characters, all short strings and all short escape texts','tests list a few escapes',
  [L+'Strbase.sml',L+'Char.sml',L+'String.sml'],[('toMLescape/fromMLescape','src/mosmllib/Strbase.sml')])
P('C15','Substring operations denote slices of the base string',
  'Every Substring operation (substring, extract, slice, triml, trimr, sub, size, base, concat, splitl, splitr, splitAt, dropl, dropr, takel, taker, position, span, translate, tokens, fields, foldl, foldr, app, compare, collate, isPrefix, getc, first) yields the result its definition gives on the underlying string slice, never reads outside it, and raises Subscript, Size or Span exactly when documented.',
  ['inputs'],'all strings up to a length with all slice bounds','tests use a few substrings',
  [L+'Substring.sml',L+'Strbase.sml'],[('(string, start, length) triples','src/mosmllib/Substring.sml')])
P('C16','Array and Vector operations respect bounds and element order',
  'Array, Vector, ArraySlice and VectorSlice operations (array, tabulate, fromList, sub, update, length, extract, copy, copyVec, folds, app, modify, find, exists, all, collate, map, concat, slices) give the result of the same operation on the sequence of elements, copy correctly for every overlap of source and destination, leave other elements untouched, and raise Subscript or Size exactly when an index, range or length is invalid.',
  ['inputs'],'all element values, all lengths up to a bound, all index and overlap choices','tests use one or two shapes per operation',
  [L+'Array.sml',L+'Vector.sml',L+'ArraySlice.sml',L+'VectorSlice.sml',R+'alloc.c'],[('explicit bounds tests','src/mosmllib/Array.sml')])
P('C17','Character and Word8 arrays and vectors respect bounds and contents',
  'CharArray, CharVector, Word8Array, Word8Vector and their slices behave as sequences of characters or bytes: sub, update, copy (with any overlap), copyVec, extract, concat, tabulate, map, folds and slices yield exactly the specified elements, never disturb neighbours, and raise Subscript or Size exactly on invalid indices or lengths.',
  ['inputs'],'all byte values, all lengths up to a bound (across word boundaries), all index and overlap choices','tests use one or two shapes per operation',
  [L+'Word8Array.mlp',L+'Word8Vector.sml',L+'CharArray.sml',L+'CharVector.sml',R+'str.c'],[('byte blocks with padding','src/runtime/str.c')])
P('C18','Array2 operations address exactly the specified cells',
  'Array2 array, fromList, tabulate, sub, update, nRows, nCols, dimensions, row, column, copy (all overlaps), app, fold, modify and their indexed versions visit exactly the cells of the given region in the given traversal order and leave every other cell unchanged; invalid indices raise Subscript and invalid sizes Size.',
  ['inputs'],'all dimensions up to a bound, all regions, indices and traversals','tests use a few fixed matrices',
  [L+'Array2.sml'],[('row-major vector of arrays','src/mosmllib/Array2.sml')])
P('C19','List and ListPair functions agree with their definitions',
  'Every function of List and ListPair gives the result, applies its function argument to the elements in the order and number of times, and raises the exception (Empty, Subscript, Size, UnequalLengths) that the Basis definition prescribes, for lists of any contents and length.',
  ['inputs'],'all lists up to a length with arbitrary elements and indices','tests use short literal lists',
  [L+'List.sml',L+'ListPair.sml'],[('list recursion','src/mosmllib/List.sml')])
P('C20','Sorting yields an ordered permutation',
  'For every list and array and every total ordering, Listsort.sort and Arraysort.sort yield a permutation of the elements that is ordered; Listsort.sorted holds exactly of ordered lists and, where provided, merge and similar operations yield the ordered combination.',
  ['inputs'],'all lists and arrays up to a length, arbitrary (also equal) elements','tests sort a few random lists',
  [L+'Listsort.sml',L+'Arraysort.sml'],[('smooth applicative merge sort','src/mosmllib/Listsort.sml'),('quicksort','src/mosmllib/Arraysort.sml')])
P('C21','Ordered maps behave as finite functions',
  'For any sequence of insertions, removals, lookups and transformations, Splaymap, Binarymap, Redblackmap and Intmap agree with a finite function from keys to values: find, peek, remove, numItems, listItems and folds in key order, map and transform give exactly the bindings present, NotFound is raised exactly for absent keys, and earlier versions of a functional map are unaffected.',
  ['histories'],'all operation sequences up to a length over arbitrary keys','tests run fixed sequences, which never reach most rebalancing cases',
  [L+'Splaymap.sml',L+'Splaytree.sml',L+'Binarymap.sml',L+'Redblackmap.sml',L+'Intmap.sml'],[('balanced trees','src/mosmllib/Redblackmap.sml')])
P('C22','Sets behave as mathematical finite sets',
  'For any sequence of operations, Splayset, Binaryset, Rbset and Intset agree with finite sets: member, add, addList, delete, union, intersection, difference, isSubset, equal, numItems, listItems in order, folds, find and the like give exactly the elements, NotFound is raised exactly for absent elements, and arguments are unaffected.',
  ['histories'],'all operation sequences up to a length over arbitrary elements','tests run fixed sequences on small ranges',
  [L+'Splayset.sml',L+'Binaryset.sml',L+'Rbset.sml',L+'Intset.sml'],[('balanced trees','src/mosmllib/Rbset.sml')])
P('C23','Hash tables and hash sets behave as mutable finite functions',
  'For any sequence of operations and any hash function consistent with equality, Polyhash tables and Hashset sets agree with a mutable finite map or set: insert, peekInsert, find, peek, remove, numItems, listItems, apply, map, filter, transform, copy, member, add, delete give exactly the bindings present, also across resizing, and raise the given exception exactly for absent keys.',
  ['histories'],'all operation sequences up to a length, arbitrary keys and collisions','tests insert a few fixed keys with the default hash function',
  [L+'Polyhash.sml',L+'Hashset.sml'],[('bucket arrays with growth','src/mosmllib/Polyhash.sml')])
P('C24','Dynamic arrays, buffers, suspensions and options keep their contracts',
  'Dynarray is an unbounded array with a default element whose subArray, sub, update and bound agree with a function on indices; Buffer contents are the concatenation of what was added since the last clear or reset, across growth; a suspension is evaluated at most once, on first force, and yields the same result ever after; Option functions agree with their definitions.',
  ['histories'],'all operation sequences up to a length','tests use fixed short sequences',
  [L+'Dynarray.sml',L+'Buffer.sml',L+'Susp.sml',L+'Option.sml'],[('growth by copying','src/mosmllib/Buffer.sml')])
P('C25','Path functions obey the OS.Path laws',
  'For all path strings, Path functions satisfy their documented laws: toString inverts fromString on canonical components, concat and mkAbsolute/mkRelative compose, splitDirFile/joinDirFile and splitBaseExt/joinBaseExt invert each other, isAbsolute, isCanonical, mkCanonical and validVolume agree with the definitions, and Path/InvalidArc exceptions are raised exactly when documented.',
  ['inputs'],'all short strings over separators, dots and letters','tests use a table of examples',
  [L+'Path.sml'],[('arc lists','src/mosmllib/Path.sml')])
P('C26','Date and time conversions are calendar-correct',
  'Date.date normalises any field values to the correct proleptic calendar date, weekday and yearday, Date.compare orders dates, fmt/toString/fromString/scan round trip, and Time arithmetic, comparison and text conversion are exact to the microsecond, raising Time or Date exactly on unrepresentable or malformed input.',
  ['inputs'],'all field values in range','tests check some sample dates',
  [L+'Date.sml',L+'Time.sml',R+'mosml.c'],[('normalisation','src/mosmllib/Date.sml')])
P('C27','StringCvt scanning combinators agree with their definitions',
  'padLeft, padRight, skipWS, dropl, takel, splitl, and scanString consume exactly the characters their definition says and yield the specified strings for every argument; scanString succeeds exactly when the scanner succeeds on the string.',
  ['inputs'],'all strings up to a length and all padding widths','tests use a few strings',
  [L+'StringCvt.sml'],[('character readers','src/mosmllib/StringCvt.sml')])
P('C28','Real to integer conversions round correctly or raise Overflow',
  'For every real other than NaN, floor, ceil, trunc and round give the integer their definition says, with round to even on ties, when it is representable as an int, and raise Overflow otherwise; real of an int is the nearest representable real, comparisons follow the numeric order, and sign, sameSign, abs, negation, min and max agree with it.',
  ['inputs'],'all 64-bit floating-point values and all integers','tests use small values and a few halves; never the edges of the int range',
  [R+'floats.c',R+'mosml.c',R+'interp.c',L+'Real.sml'],[('range tests before conversion','src/runtime/mosml.c')])
P('C29','PackReal encodings are exact inverses',
  'PackRealBig and PackRealLittle toBytes/fromBytes, subVec, subArr and update convert between reals and their 8-byte IEEE encodings in the given byte order without changing any bit, touch only the addressed bytes, and raise Subscript exactly when the element lies outside the vector or array.',
  ['inputs'],'all 64-bit patterns and all indices','tests use a few reals',
  [L+'PackRealBig.sml',L+'PackRealLittle.sml',R+'mosml.c'],[('byte reversal','src/mosmllib/PackRealBig.sml')])
P('C30','Generated lexers take the longest match, first rule on ties',
  'For every input, a mosmllex-generated lexer selects the rule whose regular expression matches the longest prefix, the earliest such rule on ties, runs its action with getLexeme equal to exactly that prefix and its positions, and continues right after it, however the input is delivered by the reader; input no rule matches fails, and eof rules apply exactly at the end of input.',
  ['inputs','schedules'],'all inputs up to a length and all reader chunkings, for a corpus of lexer definitions','tests lex fixed files in one chunking',
  ['src/lex/lexgen.sml','src/lex/output.sml','src/lex/syntax.sml',R+'lexing.c',L+'Lexing.sml'],[('automaton construction','src/lex/lexgen.sml'),('table interpreter','src/runtime/lexing.c')])
P('C31','Generated parsers accept exactly the grammar and run its actions',
  'For every token sequence, a mosmlyac-generated parser accepts exactly the sentences of the grammar as disambiguated by precedence and associativity declarations, computes the semantic value its actions define on the parse tree (with the right positions), and reports failure at the first offending token otherwise.',
  ['inputs'],'all token sequences up to a length, for a corpus of grammars','tests parse a few sentences',
  ['src/mosmlyac/lalr.c','src/mosmlyac/output.c','src/mosmlyac/mkpar.c',R+'parsing.c',L+'Parsing.sml'],[('LALR tables','src/mosmlyac/lalr.c'),('table interpreter','src/runtime/parsing.c')])
P('C32','MD5 digests are those of RFC 1321',
  'For any byte string, Mosml.md5sum is the base64 form (22 characters, without padding) of the RFC 1321 MD5 digest of the string.',
  ['inputs'],'all byte strings up to several blocks and around the internal buffer size','nothing tests it; the compiler only compares digests with each other',
  [R+'md5sum.c'],[('md5 and enc64','src/runtime/md5sum.c')])
P('C33','Web support decodes and encodes data faithfully',
  'Mosmlcgi decodes form data, percent escapes and cookies exactly, Msp\'s HTML and URL encoders escape exactly the special characters and decode back, the wseq combinators flatten to the concatenation of their parts, and parameter accessors return exactly the values or documented defaults.',
  ['inputs'],'all short parameter strings','there are no tests for these modules beyond examples',
  [L+'Mosmlcgi.sml',L+'Msp.sml',L+'Mosmlcookie.sml'],[('urlencode/urldecode','src/mosmllib/Msp.sml')])
P('C34','The pretty-printer preserves text and respects breaks',
  'For every well-nested sequence of blocks, breaks and strings, PP emits all strings in order, separates them only with the specified blanks or newlines with indentation, breaks consistent blocks everywhere or nowhere and inconsistent ones only where needed, and never exceeds the line width where a break could prevent it.',
  ['inputs'],'all sequences up to a length, all widths, offsets and string lengths','tests print a few fixed layouts',
  [L+'PP.sml'],[('Oppen ring buffer','src/mosmllib/PP.sml')])
P('C35','Registered callbacks run with their argument and propagate exceptions',
  'A function registered with Callback.register can be looked up and applied from C any number of times with the right argument and result, a nested callback or an exception escaping from one reaches the enclosing handler on the calling side with the interpreter state intact, and unregistered or re-registered names are treated as documented.',
  ['histories','schedules'],'all sequences of register, unregister and call up to a length, and all collection placements','tests call each callback once',
  [R+'callback.c',L+'Callback.sml',R+'interp.c'],[('callback table','src/runtime/callback.c')])
P('C36','String and regular-expression search and Regex match semantics',
  'placeholder', ['inputs'],'-','-',[],[])
P('C37','Weak pointers and arrays never resurrect or lose reachable values',
  'A weak pointer or weak array element yields its value as long as the value is reachable otherwise, and either its value or Fail/NONE afterwards, wherever collections strike; updates and copies of weak arrays preserve the rest of the contents.',
  ['schedules'],'every placement of minor and major collections','tests check one forced collection',
  [R+'weak.c',R+'major_gc.c',L+'Weak.sml'],[('weak list sweep','src/runtime/major_gc.c')])
PROPS=[p for p in PROPS if p['statement']!='placeholder']

NA = []
def N(id, title, statement, over, text, why, files, mech, reason):
    P(id,title,statement,over,text,why,files,mech); NA.append((id,reason))
N('C90','Type inference is sound and principal',
  'Every program the compiler accepts is well typed according to the Definition of Standard ML with its Modules extensions, every well-typed program is accepted, and inferred types are principal.',
  ['programs'],'all programs','tests compile a fixed set of programs',
  ['src/compiler/Types.sml','src/compiler/Infixst.sml','src/compiler/Elab.sml'],[('elaboration','src/compiler/Elab.sml')],
  'the quantifier ranges over program texts; the elaborator works on heap-allocated type graphs over a full parser, and a symbolic program text of any useful length forks beyond what symbolic execution of the compiler can cover; no bounded encoding short of enumerating programs is within reach')
N('C91','External bindings transfer data exactly (sockets, gdbm, mysql, pq, gd, regex)',
  'Values passed through the optional C bindings to sockets, databases and graphics libraries reach the foreign library and come back unchanged.',
  ['inputs','fault_sequences'],'all values exchanged','the libraries are not built or tested here',
  ['src/dynlibs'],[('foreign function wrappers','src/dynlibs')],
  'the deciding behaviour lies in external libraries (libgdbm, libmysqlclient, libpq, libgd) whose headers and code are not installed; the wrappers cannot be compiled, so there is no code to encode')
N('C92','Floating-point arithmetic and elementary functions are IEEE-correct',
  'Real +, -, *, /, sqrt and the Math functions return the correctly rounded or documented-precision result, and Real.fmt/scan round trip to the nearest real.',
  ['inputs'],'all 64-bit floating-point values','tests check a few literals to a tolerance',
  ['src/runtime/floats.c','src/mosmllib/Real.sml','src/mosmllib/Math.sml'],[('C double arithmetic and printf/strtod','src/runtime/floats.c')],
  'the arithmetic is performed by the processor and libm/printf/strtod of the C library, outside the repository; the wrappers only box and unbox (covered by C28 and C29), and a symbolic proof about libm or strtod is out of reach of the solvers')
