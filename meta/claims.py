# property -> (technique, level note)
CLAIMS = {
"C01": ("abstract interpretation of copy operations (provenance of every member on every path)",
  """For every class with copy operations and every path, each member's value at exit is shown to stem from the same member of the source (or a re-established one). Sound for
  the members the exporter sees; assumes standard containers copy their elements. Not value equality of heap contents beyond that."""),
"C02": ("abstract interpretation of constructors (definite initialisation, calls and bases inlined)",
  "Every scalar or pointer member of every class, for every constructor and exit path. Arrays count as initialised by loops/memset over them; frozen list of members that are only read after a later write."),
"C03": ("abstract interpretation of reset/input operations against the default-constructed state",
  "Every member changed by scanning has the constructor's value at the exit of each operation that takes new input, per engine class. Necessary structure of the property; values of opaque regex-library objects are out of reach."),
"C04": ("abstract interpretation of pattern assignment and pattern() setters (no entry value survives)",
  "Every product member and derived table, on every path, is cleared, set or rederived. Assumes standard containers' clear/assign/operator= replace all elements."),
"C05": ("typestate analysis by affine abstract interpretation (displaced-character state of the buffer along every path)",
  "Every path of every public operation of the buffered matcher and of every engine's use of the buffer, with helpers judged in their calling context: the displaced character is back in place before the buffer is read, moved, measured or the text window moves. Loops are handled by havoc with inferred guards; engine libraries are assumed not to write through the ranges they are given."),
"C06": ("affine abstract interpretation of the function that makes room; interprocedural dataflow of buffer-position dimensions and epochs; typestate of regex iterators",
  "All paths of grow(): data and every saved position move by one distance. All functions of the matcher classes: each local, field of a local record, return value and reference parameter has a dimension (place of the buffer, distance shifted) and an epoch; a value of an earlier epoch is never dereferenced, stored, passed or compared with a current one, and no other member or container keeps a position. Iterators of the regex libraries are renewed after each move. Capture offsets inside third-party match objects between public calls are excluded (see statement)."),
"C07": ("affine abstract interpretation of buffer bounds and input accounting (linear facts over buffer positions on every path)",
  "Every read from the input: destination is the first free position, room is free, at least the terminator's byte is left, the amount returned is added to the fill level, end of input only after a read of zero and a refusal to wrap; every function that delivers input into a caller's room is shown to write densely, to count what it writes and never to exceed the room. Linear arithmetic over unbounded integers (no wrap-around of size_t); streams are assumed to return at most what was asked."),
"C09": ("abstract interpretation of the file and wide string readers over symbolic bytes (bit-slice values), affine analysis of partially delivered characters, table comparison",
  "All functions that deliver input, for every room and state (linear facts); code pages exhaustively, through the reader; UTF-16/32, Latin-1, byte order marks and wide strings for all values in boxes of bytes covering every class of unit and sequences of up to four units, sizes likewise. Longer sequences rest on the state kept between units being empty, which KEEP decides. C library streams are modelled."),
"C10": ("abstract interpretation of the encoder, decoder and their uses over bit-slice values (symbolic layout per length class)",
  "All paths of utf8/from_utf8/utf8 length functions and of every other place that assembles or splits multi-byte characters, for every value of the code point in the interval of each length class (bit identities, not samples). Every non-shortest, surrogate or out-of-range behaviour the code documents is included; third-party conversion functions are not."),
"C11": ("structural comparison of the type-checked tables with the Unicode data files; abstract evaluation of the POSIX class code",
  "Every table initialiser, name binding and POSIX class membership; complete over the data. Assumes the shipped Unicode data files are the standard."),
"C17": ("abstract interpretation of every loop over the rules, per kind of rule and over all paths (counter typestate); membership of consulted option names in the option table",
  "Every loop that composes the pattern, numbers case labels, asks for reachability or counts and indexes rows of the report; each kind of rule (end-of-file or not, action | or not, earlier rules unknown); every option name consulted with a constant; every row of the library table. Which code is written as an action, and values of options, are not judged."),
"C18": ("abstract evaluation of code-to-message mapping and constructors; relational abstract interpretation of text cursors (zone domain with character facts)",
  "All declared codes, all constructors and accessors of the exception, all sites that report, and every path of the functions that quote the regex, for any text and position. A message is judged by its words against the name of its code. Whether a parser picks the fitting code for a given mistake is not decided; positions are mathematical integers."),
"C12": ("relational abstract interpretation of text cursors (zone domain with characters known at cursors, ghost anchors, function summaries)",
  "Every character read, span, length and recorded position in the parser and option reader of Pattern, the regex converter with all its helpers and the option readers of all matchers, for every string. One stretch is left undecided (what remains of a regex after the converter's loop, see DESIGN.md). Positions are mathematical integers; local character buffers are not judged here."),
"C19": ("typestate of owned pointers and containers of pointers (path-sensitive abstract interpretation of symbolic objects, own/not-own flags and exceptional exits, calls on the same object followed)",
  "Every field that is released or given new memory by its class, every container of such pointers, every local that holds an allocation: LEAK, TWICE, FOREIGN, DANGLING, SHARED at every return and every throw, from every state the invariant allows, self-assignment included; COPY: an owning class defines or forbids copying. Out-of-memory exits are judged for dangling and double release only; pointers a caller hands over are taken to be handed over; the default configuration is analysed; memory passed to functions outside the program is not followed."),
"C21": ("path-sensitive emptiness dataflow with calls analysed in context and inferred class invariants",
  "Every read or removal of a first or last element, every size() - k and every dereferenced iterator in matcher, lexer, pattern compiler, converter and generator, on every path: known to be non-empty. Operations a user calls are analysed for any state. Ranges read from constant tables and texts returned by other functions are taken to be non-empty where their content is data; indices computed otherwise are not judged."),
"C08": ("interprocedural sign dataflow: every widening of a plain char is followed flow-sensitively, with branch refinement, to its comparisons, orderings, indexes, classifications, returns and stores",
        "Decides the sign of every char widened in the library, the headers and the generator, and the size of tables indexed by a byte; strings handled by pointers to unsigned char or cast by reinterpret_cast are bytes by type; what the value of a byte then means is not judged here."),
"C13": ("forward abstract interpretation (linear forms with products, joins, inductive constant bounds at loops, callees inlined) of every narrowing conversion, increment, product and packed field in the pattern compiler",
  "Every conversion of a count, index or position to a narrower unsigned type, every increment and sum of such counters, every product of counts and every operand packed into an opcode of the pattern compiler and encoder: it fits on every path, or a limit error was raised before. Characters, hashes, single bytes, decrements below zero, 32-bit sums, the 16-bit index of an opcode's jump and the code generators are not judged."),
"C14": ("comparison of symbolic effects (Herbrand terms over bit-slice values) of encoder, interpreters, generated-code functions and code generator, per instruction kind",
  "Every instruction kind with symbolic operands: encoder and decoders invert each other bit by bit, kinds do not overlap; in the interpreter, the approximate matcher and the FSM_* functions every anchor's test is extracted as a set of literals per path and must be the same condition with the same effects; the generator prints each anchor with the label and arguments of its function. Byte edges, HALT, LONG, TAKE, REDO, HEAD, TAIL are judged in every consumer. Anchors tested while another anchor is pending (nested meta states) and the count of words allocated are not compared."),
"C15": ("escape and mutation analysis of all variables of static storage and of every use of a matcher's pattern (syntax tree and types)",
  "Every variable of static storage, every use of one that is not const (followed through aliases), every cast that removes const, every use of a matcher's pattern, every call of a C function with hidden state. Assumes thread-safe initialisation of function statics and const-correct standard libraries."),
"C16": ("abstract interpretation of the generator under a fault hypothesis per call site (this open, write or final flush fails), interprocedural with exception handlers; exit status and message typestate",
  "Every place where the generator or the pattern compiler opens, writes or completes a file: under the hypothesis that it fails no path reaches success. Library results follow the C and C++ standards. Read errors of an input file that was opened, and reports printed for the user on the standard output, are outside."),
}
NA = {
"C20": "whether a replacement means the same as the escape it replaces is an equivalence of two regex notations, of text assembled at run time for a library signature; no structural rule in reach implies it. The parts that are structural are claimed elsewhere: class tables (C11), byte values (C08), reading within the text (C12).",
"N01": "quantifies over runtime matching results; no structural clause of the match loop implies longest match. Decided by testing or proof, not by static analysis.",
"N02": "language equality of regex and automaton for all patterns is a semantic equivalence of runtime data structures.",
"N03": "equality of accelerated and plain search over all inputs depends on runtime table contents.",
"N04": "relates numeric column values and stack contents across whole histories of runtime input.",
"N05": "language preservation over all regexes is a semantic equivalence; conversion is a rewriting of runtime text; its reading bounds are claimed as C12 and its byte handling as C08.",
"N06": "numeric range arithmetic for all pairs of code points; the encoder clause is claimed as C10.",
"N07": "numeric counts over all inputs and buffer histories; the clause that saved positions are rebased is claimed as C06.",
"N08": "edit distance is a numeric optimum over runtime values.",
"N09": "running time; no sound static bound in reach (termination arguments are data dependent).",
"N10": "algebraic equality over all operand values; loops over containers defeat structural rules.",
"N11": "agreement of different regex engines' results is a runtime relation between third-party libraries.",
"N12": "equality of two runtime behaviours; the clause that both consumers decode the same instructions is claimed as C14.",
}
