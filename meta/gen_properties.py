#!/usr/bin/env python3
# Source of /verif/properties.jsonl: python3 meta/gen_properties.py
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Copies and assignments are complete",
 "Copy-constructing or assigning a compiled pattern, a matcher of any engine, an input object or a bit set yields an object in the same state as the original: every part of the source's state that later operations read is either copied from the same part of the source or re-established for the new object. No part is taken from a different part, set to an unrelated constant, or left as it was before the assignment.",
 ["histories","inputs"], "every sequence of operations that copies or assigns an object and then uses the copy, for every pattern and option set",
 "The tests copy matchers only incidentally and never compare the behaviour of copy and original over all patterns and options; a state member missed by a copy shows only for patterns or options which use that member.",
 ["include/reflex/pattern.h","include/reflex/matcher.h","include/reflex/absmatcher.h","include/reflex/boostmatcher.h","include/reflex/stdmatcher.h","include/reflex/pcre2matcher.h","include/reflex/input.h","include/reflex/bits.h","fuzzy/fuzzymatcher.h"],
 [("Pattern copy constructor and operator=","include/reflex/pattern.h"),("Matcher copy constructor and operator=","include/reflex/matcher.h"),("PatternMatcher operator=","include/reflex/absmatcher.h"),("FuzzyMatcher copy constructor","fuzzy/fuzzymatcher.h"),("Input copy constructor and operator=","include/reflex/input.h")],
 observe=["results of a copied pattern or matcher"])

prop("C02", "Construction leaves no member uninitialised",
 "However a pattern, matcher (of any engine), input, bit set or lexer object is constructed, every scalar or pointer part of its state has a defined value once construction finishes. No constructor leaves a part with an indeterminate value that a later operation could read.",
 ["histories","configurations"], "every constructor of every public class and every operation sequence after it",
 "An uninitialised member usually happens to hold zero in a test process; the tests exercise a few constructors only and run without a memory checker.",
 ["include/reflex/pattern.h","include/reflex/matcher.h","include/reflex/absmatcher.h","include/reflex/boostmatcher.h","include/reflex/stdmatcher.h","include/reflex/pcre2matcher.h","include/reflex/input.h","include/reflex/bits.h","include/reflex/abslexer.h","include/reflex/flexlexer.h","fuzzy/fuzzymatcher.h"],
 [("constructors, init() helpers and initialiser lists","include/reflex/*.h")])

prop("C03", "A matcher given new input starts afresh",
 "Resetting a matcher or giving it a new input (stream, string, file, in-place buffer) returns all scanning state - text, accept, position, counters, line and column bookkeeping, indentation stops, end-of-file state, saved anchors - to the state of a newly constructed matcher. Nothing that scanning of the previous input changed is left behind.",
 ["histories","inputs"], "every history of scanning operations on one input followed by a switch to another input, for all matcher classes",
 "Tests reuse matchers only from a few end states; the residue of an abandoned scan depends on where it was abandoned.",
 ["include/reflex/absmatcher.h","include/reflex/matcher.h","include/reflex/boostmatcher.h","include/reflex/stdmatcher.h","include/reflex/pcre2matcher.h","fuzzy/fuzzymatcher.h","include/reflex/abslexer.h"],
 [("AbstractMatcher::reset","include/reflex/absmatcher.h"),("Matcher::reset","include/reflex/matcher.h"),("input()/buffer()/own","include/reflex/absmatcher.h")],
 observe=["sequence of matches after reset or input switch"])

prop("C04", "Re-assigned patterns leave no residue",
 "Assigning a new regular expression or pre-generated automaton to a pattern object replaces every product of the previous one (sub-pattern list, reachability, automaton, opcodes, prediction tables, limits), and giving a matcher another pattern drops every search table memoised for the previous pattern. Matching after the switch equals matching with a newly created object.",
 ["histories"], "every sequence of pattern assignments and matcher pattern switches",
 "Tests build each pattern once; a stale table changes results only for particular pairs of old and new pattern.",
 ["include/reflex/pattern.h","include/reflex/matcher.h","include/reflex/absmatcher.h","lib/pattern.cpp","lib/matcher.cpp"],
 [("Pattern::assign/clear/init","include/reflex/pattern.h, lib/pattern.cpp"),("PatternMatcher::pattern/own_pattern","include/reflex/absmatcher.h"),("bmd_/bms_/lcp_/lcs_ memo","include/reflex/matcher.h")])

prop("C05", "Looking at the text does not change the input",
 "A character that was displaced in the buffer to terminate the matched text as a string is always put back before the buffer is read for matching, shifted, enlarged, searched for line boundaries, overwritten, or the text window is moved. Hence reading the text, peeking, getting or putting back characters, skipping, and looking at the current line never alters what is matched next.",
 ["histories","inputs"], "every interleaving of text access, character access, line access and matching calls",
 "Tests access the text once per match at fixed moments; the loss of a displaced character needs a specific call order.",
 ["include/reflex/absmatcher.h","include/reflex/matcher.h","lib/matcher.cpp","include/reflex/boostmatcher.h","include/reflex/stdmatcher.h","include/reflex/pcre2matcher.h","fuzzy/fuzzymatcher.h"],
 [("reset_text()","include/reflex/absmatcher.h"),("text()","include/reflex/absmatcher.h")],
 state=[("chr_","displaced character","include/reflex/absmatcher.h")])

prop("C06", "Saved positions survive buffer moves",
 "Whenever the input buffer is shifted, enlarged or replaced to make room, every position saved relative to it - match start, current, next, indentation and end positions, text pointer, line start, start-of-line anchors - is adjusted by the same distance, and no pointer into the buffer obtained before an operation that may refill it is used afterwards without being recomputed. Matching therefore does not depend on where buffer moves happen.",
 ["inputs","histories"], "every input length, chunking of the input source and position of the match relative to the buffer",
 "The buffer is 256 KB by default, so almost no test input triggers a shift or growth, and never at each of the sites that refill.",
 ["include/reflex/absmatcher.h","lib/matcher.cpp","include/reflex/matcher.h","fuzzy/fuzzymatcher.h"],
 [("AbstractMatcher::grow","include/reflex/absmatcher.h"),("AbstractMatcher::peek_more/get_more/fetch","include/reflex/absmatcher.h")])

prop("C07", "Refills stay in the buffer and end of input is exact",
 "Every read from the input source is given exactly the free space after the data already buffered (never more, always after making sure that space is left), end of input is concluded only after a read returned nothing and the wrap handler declined to supply more, and what was read is accounted for. So no input byte is overwritten, lost or written outside of the buffer.",
 ["inputs","fault_sequences"], "every input source behaviour: short reads, empty reads, wrap-around to further input, any size",
 "Test inputs are complete strings or small files which arrive in one read.",
 ["include/reflex/absmatcher.h","lib/matcher.cpp","include/reflex/input.h","include/reflex/boostmatcher.h","include/reflex/stdmatcher.h","include/reflex/pcre2matcher.h"],
 [("calls of get(s, n) and grow()","include/reflex/absmatcher.h"),("set_end(), wrap()","include/reflex/absmatcher.h")])

prop("C08", "All 256 byte values are ordinary input",
 "Every input or pattern byte is handled as a value from 0 to 255 wherever it is returned as a character code, compared, classified, or used to index a table; no byte value is ever confused with end of input or turned negative.",
 ["inputs"], "every byte value at every place where characters are fetched, compared or used as index",
 "Tests are nearly all ASCII; bytes at or above 0x80 hit few of the sites, and sign extension depends on the platform's char type.",
 ["include/reflex/absmatcher.h","include/reflex/matcher.h","lib/matcher.cpp","lib/pattern.cpp","lib/convert.cpp","lib/input.cpp","lib/utf8.cpp","include/reflex/input.h","fuzzy/fuzzymatcher.h","src/reflex.cpp"],
 [("static_cast<unsigned char>() at every char fetch","all sources")])

prop("C09", "File encodings are decoded exactly",
 "Input read from files, wide strings and code pages is delivered as the UTF-8 encoding of exactly the characters in the input: each code page maps every byte to the code point its standard assigns, UTF-16 and UTF-32 units are assembled in the byte order given by the byte order mark or chosen encoding (surrogate pairs combined), and every encoding offered can be selected, sized and read. A character that does not fit in the room left at the end of a read is completed by the next read with none of its bytes lost or repeated.",
 ["inputs","configurations"], "every encoding, every code unit and byte value, and every position of a read boundary",
 "Tests read a handful of short files in a few encodings; boundary straddling needs a read to end within a character.",
 ["lib/input.cpp","include/reflex/input.h"],
 [("codepages table","lib/input.cpp"),("Input::file_get","lib/input.cpp"),("Input::file_encoding, file_size","lib/input.cpp"),("Input::get for wide strings","include/reflex/input.h")],
 state=[("utf8_/uidx_/ulen_","UTF-8 bytes pending from the last character","include/reflex/input.h")])

prop("C10", "UTF-8 encoder and decoder are exact",
 "Encoding any code point up to 10FFFF yields exactly its standard UTF-8 byte sequence and length, decoding any such sequence returns the code point, and both agree with the reported sequence lengths. Every place in the library which assembles or takes apart multi-byte characters follows the same layout.",
 ["inputs"], "all code points and all lead bytes",
 "Tests use a few dozen code points.",
 ["include/reflex/utf8.h","lib/utf8.cpp","include/reflex/absmatcher.h"],
 [("utf8(int, char*), utf8(const char*, const char**)","include/reflex/utf8.h")])

prop("C11", "Character classes equal their standard's tables",
 "Each Unicode general category, script and block class, and each POSIX class, contains exactly the code points that the Unicode data files shipped with the library (or POSIX, for the ASCII classes) assign to it; each documented name and alias resolves to the right table. Tables are well-formed: ordered, disjoint ranges within 0..10FFFF and properly terminated.",
 ["inputs"], "every class name and all 1,114,112 code points",
 "Tests try a few classes with a few characters each.",
 ["unicode/letter_scripts.cpp","unicode/language_scripts.cpp","unicode/block_scripts.cpp","lib/posix.cpp","lib/unicode.cpp","unicode/UnicodeData.txt","unicode/Scripts.txt","unicode/Blocks.txt"],
 [("static range tables and Tables constructors","unicode/*.cpp, lib/posix.cpp")])

prop("C12", "Regex text is never read past its end",
 "For every string given as a regular expression or as an option string, well-formed or not, the parsers of patterns, conversions and options examine no character beyond the terminator of the string; ill-formed text gives a syntax error and never a read outside of it.",
 ["inputs"], "every byte string, in particular those that end in the middle of a construct",
 "Tests hold some hundred well-formed patterns; truncations of each construct are not tried.",
 ["lib/pattern.cpp","lib/convert.cpp","include/reflex/absmatcher.h","include/reflex/pattern.h"],
 [("Pattern::at() and the parse1..parse4/parse_esc cursor","lib/pattern.cpp"),("convert() cursor","lib/convert.cpp"),("init_options / reset option scanners","lib/pattern.cpp, include/reflex/absmatcher.h")])

prop("C13", "Patterns over a limit are rejected, not truncated",
 "Whenever a number that depends on the pattern - a repetition count, a lookahead index, a sub-pattern index, a position, an automaton index - is stored in a narrower field of the compiled form, the pattern compiler first ensures that it fits or reports that a complexity limit is exceeded. No compiled pattern contains a wrapped-around value.",
 ["inputs"], "every pattern, including ones too large for the compiled representation",
 "Patterns near the limits take long to write and compile; only one or two limits are hit by tests.",
 ["lib/pattern.cpp","include/reflex/pattern.h"],
 [("error(regex_error::exceeds_limits)","lib/pattern.cpp"),("Position, Lookahead, Iter and Opcode fields","include/reflex/pattern.h")])

prop("C14", "Compiled opcodes mean the same to every consumer",
 "Each instruction that pattern compilation can emit is decoded by the matcher, the approximate matcher and the code generator into the same operation with the same operands: encoding and decoding are inverse, no two instruction kinds overlap, every anchor or boundary condition that can be emitted is acted upon by each consumer, and a condition holds under the same circumstances in interpreted and generated code.",
 ["inputs","programs"], "every instruction kind and operand value, and every anchor in each execution mode",
 "Tests run a fixed set of patterns; a kind that one consumer mishandles shows only for patterns which compile to it in that mode.",
 ["include/reflex/pattern.h","include/reflex/matcher.h","lib/matcher.cpp","lib/pattern.cpp","fuzzy/fuzzymatcher.h"],
 [("Pattern::opcode_* and is_opcode_*, meta_of, lo_of, hi_of, index_of","include/reflex/pattern.h"),("Matcher::match","lib/matcher.cpp"),("FSM_META_*","include/reflex/matcher.h"),("Pattern::gencode_dfa","lib/pattern.cpp"),("FuzzyMatcher::match","fuzzy/fuzzymatcher.h")])

prop("C15", "Concurrent matchers may share patterns",
 "Matching, converting and compiling keep no modifiable state that is shared between objects: threads working with different matcher, input and pattern objects, including matchers that share one compiled pattern, do not interfere. A matcher never modifies the pattern it uses.",
 ["schedules"], "every interleaving of threads that use distinct matcher objects",
 "The tests are single-threaded.",
 ["lib/pattern.cpp","lib/matcher.cpp","lib/convert.cpp","lib/input.cpp","lib/posix.cpp","lib/unicode.cpp","include/reflex/*.h","fuzzy/fuzzymatcher.h"],
 [("absence of writable static storage","lib/*.cpp, include/reflex/*.h"),("const Pattern * in matchers","include/reflex/absmatcher.h")])

prop("C16", "The scanner generator reports output failures",
 "The scanner generator does not report success when an output it was asked to produce - scanner, header, tables, pattern and graph files - could not be opened, written or completed; a failed open, write or final flush leads to an error message and a failing exit status. Input files that cannot be opened are reported likewise.",
 ["fault_sequences","configurations"], "every output option and every point at which the file system can fail",
 "The tests generate scanners on a healthy file system only.",
 ["src/reflex.cpp","src/reflex.h","lib/pattern.cpp"],
 [("Reflex::write and its helpers","src/reflex.cpp"),("Pattern::export_dfa, export_code, predict file","lib/pattern.cpp")])

prop("C17", "Generated scanners pair each rule with its own action",
 "In a generated scanner the n-th alternative of the combined pattern of a start condition selects the action written for that rule: numbering of actions, composition of the combined pattern and the reported rule statistics count exactly the same rules. Every option that the generator consults is one the user can give, and every library in its table can be selected by its name.",
 ["programs","configurations"], "every specification (any mix of pattern, end-of-file, inclusive and continued-action rules) and every option",
 "The example specifications exercise few mixes of rule kinds and options.",
 ["src/reflex.cpp","src/reflex.h"],
 [("Reflex::write_code rules/accept numbering","src/reflex.cpp"),("Reflex::stats, pattern composition","src/reflex.cpp"),("options_table, library_table","src/reflex.cpp")])

prop("C18", "Regex errors carry the right message",
 "Each error that the regular expression parsers and converter can report maps to its own message, every reportable error code has a message, and the error shown quotes the regular expression without reading outside of it, whatever the regex and the error position.",
 ["inputs"], "every error code and error position",
 "Tests provoke few of the errors and never check the message text.",
 ["include/reflex/error.h","lib/error.cpp","lib/pattern.cpp","lib/convert.cpp"],
 [("regex_error::regex_error_message, display_error","lib/error.cpp"),("error codes","include/reflex/error.h")])

prop("C19", "Owned memory is released once, on every path",
 "Memory and other resources a pattern, matcher, input, bit set or lexer object owns are released exactly once: by its destructor, when replaced by an assignment or re-initialisation, and also when an operation is left through an error. A resource that belongs to someone else is never released, and none is released twice.",
 ["histories","fault_sequences"], "every history of construction, copying, assignment, reset, error and destruction",
 "Leaks and double releases do not make a test fail unless a memory checker runs, and error exits are rarely taken.",
 ["include/reflex/pattern.h","include/reflex/matcher.h","include/reflex/absmatcher.h","include/reflex/bits.h","include/reflex/abslexer.h","lib/pattern.cpp","include/reflex/pcre2matcher.h","include/reflex/stdmatcher.h","include/reflex/boostmatcher.h","fuzzy/fuzzymatcher.h"],
 [("new/delete of owned members","include/reflex/*.h, lib/pattern.cpp"),("own_ flags","include/reflex/absmatcher.h")])

prop("C20", "Escapes are translated to their equivalents",
 "When a regular expression is converted for another regex library, each escape, class or boundary that the library lacks is replaced by one with the same meaning: a negated class by the complement of the class, a boundary by the same boundary in the library's notation, inside and outside of bracket lists alike.",
 ["inputs","configurations"], "every escape and class name in each position, for every library signature",
 "Tests convert few escapes for few libraries and do not compare matching.",
 ["lib/convert.cpp","include/reflex/convert.h","lib/posix.cpp"],
 [("convert_escape, insert_escape_class, insert_posix_class, convert_posix_class","lib/convert.cpp")])

prop("C21", "Empty stacks and containers are never popped or read",
 "Popping a lexer state, matcher, condition or indentation stop, and taking the last or first element of any container, happens only when there is one: an operation on an empty stack has no effect or is reported. The result of a search in a container is used only when something was found.",
 ["histories"], "every history of push and pop operations",
 "Tests balance their pushes and pops.",
 ["include/reflex/abslexer.h","include/reflex/absmatcher.h","include/reflex/matcher.h","lib/matcher.cpp","lib/pattern.cpp","src/reflex.cpp"],
 [("emptiness tests before top/pop/back/pop_back","include/reflex/abslexer.h, lib/*.cpp")])

# ---- stated, not claimed
def na(id, title, statement, over, text, why, files, mech): prop(id,title,statement,over,text,why,files,mech)
na("N01","Longest match, first alternative wins",
 "Scanning returns the leftmost-longest match of the pattern, or the first alternative listed among equally long ones; lazy quantifiers return the shortest.",
 ["inputs","programs"],"all patterns and inputs","Infinite pattern and input spaces.",["lib/pattern.cpp","lib/matcher.cpp"],[("Pattern::compile, Matcher::match","lib/pattern.cpp, lib/matcher.cpp")])
na("N02","The automaton accepts exactly the regex language",
 "The compiled automaton accepts a string with group n exactly when sub-pattern n of the regular expression matches it, including lookahead, negation, anchors and Unicode ranges.",
 ["programs"],"all regular expressions","Tests sample patterns.",["lib/pattern.cpp"],[("Pattern::parse, compile, assemble","lib/pattern.cpp")])
na("N03","Search prediction never skips a match",
 "Finding with bit-prediction, hashing or string search acceleration reports exactly the matches found by trying each position in turn.",
 ["inputs","programs"],"all patterns and inputs","Depends on pattern shape and input.",["lib/matcher.cpp","lib/pattern.cpp","include/reflex/matcher.h"],[("Matcher::advance, Pattern::predict_match","lib/matcher.cpp, lib/pattern.cpp")])
na("N04","Indent and dedent events balance",
 "Indentation matching reports an indent for each deeper level and dedents until the enclosing level, whatever mix of tabs, blanks and empty lines.",
 ["inputs"],"all inputs","Few layouts tested.",["lib/matcher.cpp","include/reflex/matcher.h"],[("indent stops","lib/matcher.cpp")])
na("N05","Conversion preserves the language",
 "A regular expression converted for a target library matches the same strings in that library as the original means in this library's syntax.",
 ["programs","configurations"],"all regexes and signatures","Sampled.",["lib/convert.cpp"],[("convert","lib/convert.cpp")])
na("N06","Unicode ranges become exact UTF-8 regexes",
 "The regular expression produced for a range of code points matches exactly the UTF-8 encodings of the range.",
 ["inputs"],"all ranges","Sampled.",["lib/utf8.cpp"],[("utf8(a,b)","lib/utf8.cpp")])
na("N07","Line and column numbers are exact",
 "Line, column and byte offsets reported for a match equal the counts over the whole input read so far, for tabs, multi-byte characters and any buffer history.",
 ["inputs","histories"],"all inputs","Sampled.",["include/reflex/absmatcher.h"],[("lineno, columno, border","include/reflex/absmatcher.h")])
na("N08","Approximate matching respects the edit distance",
 "Approximate matching reports a match exactly when the text is within the allowed number of edits and reports the least number of edits.",
 ["inputs","programs"],"all patterns, inputs, bounds","Sampled.",["fuzzy/fuzzymatcher.h"],[("FuzzyMatcher::match","fuzzy/fuzzymatcher.h")])
na("N09","Matching takes linear time",
 "Time of a scan grows linearly with input length; of compilation, boundedly with pattern size.",
 ["inputs","programs"],"all patterns and inputs","Timing.",["lib/matcher.cpp","lib/pattern.cpp"],[("Matcher::match","lib/matcher.cpp")])
na("N10","Range sets obey set algebra",
 "Insertion, deletion, union, intersection, difference and complement of range sets and bit sets give the set-theoretic result for all operands.",
 ["inputs"],"all operand sets","Sampled; rtest covers some.",["include/reflex/ranges.h","include/reflex/bits.h","include/reflex/setop.h"],[("Ranges, ORanges, Bits","include/reflex/ranges.h")])
na("N11","Engines agree on find, split and scan",
 "Finding, splitting, scanning and matching with different regex engines partition the same input in the same way for patterns of the common syntax.",
 ["inputs","programs"],"all patterns and inputs","Sampled.",["include/reflex/boostmatcher.h","include/reflex/stdmatcher.h","include/reflex/pcre2matcher.h","lib/matcher.cpp"],[("match(Method)","include/reflex/*matcher.h")])
na("N12","Generated scanner equals interpreted pattern",
 "A scanner with generated direct code finds the same tokens as one that interprets the pattern's opcodes.",
 ["inputs","programs"],"all specifications and inputs","Sampled.",["lib/pattern.cpp","lib/matcher.cpp","include/reflex/matcher.h"],[("gencode_dfa","lib/pattern.cpp")])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import re
for p in P:
    assert len(p["title"])<=80,p["id"]
    assert len(re.findall(r"[.](?: |$)",p["statement"]))<=3,(p["id"],p["statement"])
print(len(P))
