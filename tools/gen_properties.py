import json
A="src/Ystring/Algorithms.cpp";AH="include/Ystring/Algorithms.hpp";D="include/Ystring/DecodeUtf8.hpp";U="src/Ystring/Unescape.cpp"
T="include/Ystring/TokenIterator.hpp";C="src/Ystring/ConvertCase.cpp";N="src/Ystring/Normalize.cpp";S="src/Ystring/Char32Set.cpp"
AU="src/Ystring/AlgorithmUtilities.cpp";E="src/Ystring/Escape.cpp";X="src/Ystring/Utf32.cpp";EN="src/Ystring/EncodeUtf8.hpp";CC="src/Ystring/CharClass.cpp";SU="src/Ystring/Subrange.cpp"
P=[]
def p(id,title,st,over,txt,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":txt},"why_tests_cant":why,"anchors":a})

p("C01","Running out of memory during a call leaves no trace",
"When memory runs out at any point inside a library call, the call either still delivers its normal result (or the invalid-input error it would have reported anyway) or fails with the standard out-of-memory error; the process is never terminated and a wrong or shortened result is never returned as success. A failed call leaks nothing it allocated and does not change any argument passed for reading. The same call, or any other call, made once memory is available again returns exactly what it would have returned without the failure.",
["inputs","fault_sequences","histories"],"every library operation that can allocate, every text (short and long), every allocation inside the call that may fail, single failures, sustained exhaustion and failures of large blocks only",
"The tests never make an allocation fail; the fault space is (operation x input x allocation index x what is called next).",
[A,AU,AH,C,N,U,E,X,S],[("results built in value types that release themselves on unwinding",A),("size reservation before case conversion",C),("growing decomposition buffer",N)],
["result or exception type of every call","outstanding allocations after the call","results of retries and of unrelated later calls"])
p("C02","In-place changes are all-or-nothing",
"Appending a code point to a string, repairing invalid text in a string in place, and adding a code point or range to a code point set either take full effect or, when an error is reported (memory exhausted, invalid code point), leave the object exactly as it was; adding many code points at once to a set may, if it fails, have added only a leading part of them and never loses old members. Over any history of such operations and failures, the string's bytes and the set's membership are those obtained from the operations that succeeded.",
["histories","fault_sequences","inputs"],"every sequence of appends, in-place repairs and set insertions (code points up to U+10FFFF, ranges with first <= last), with an allocation failure at any point of any of them",
"Tests append to fresh strings with memory available; a torn code point needs the buffer to fill up in the middle of a multi-byte character and the growth to fail.",
[A,S,EN],[("append encodes the code point onto the end of the string","src/Ystring/Algorithms.cpp: append"),("in-place repair builds a copy and assigns it","src/Ystring/Algorithms.cpp: replace_invalid_utf8"),("range list extended or appended to","src/Ystring/Char32Set.cpp: add_codepoint")],
["bytes of the caller's string and membership of the caller's set after every call"],
[("CodepointSet::ranges","the members of the set","include/Ystring/CodepointSet.hpp")])
p("C03","A failed read consumes nothing",
"Every function that reads one character and advances a caller-held position (decoding or popping a code point forwards or backwards, or reading the next possibly escaped character) moves the position past exactly the bytes of the character it returns. When it fails for any reason (end of text, incomplete or malformed sequence, bad escape, out of memory) it consumes no character, so that repeating the call once the fault is gone returns the character the failed call would have returned. The only bytes a failed read of escaped text may have skipped are escaped line breaks, which produce no character.",
["inputs","fault_sequences","histories"],"every well-formed or damaged text, every truncation point of the text delivered so far, both directions, every allocation failure during the read, followed by any number of retries",
"Tests check a dozen hand-picked sequences once; they never resume after a failure and never fail the allocation of the error message itself.",
[D,U],[("roll-back of the iterator on a bad or missing continuation byte","include/Ystring/DecodeUtf8.hpp: decode_next, decode_prev"),("view committed only after the decode succeeded","include/Ystring/DecodeUtf8.hpp: pop_utf8_codepoint"),("saved copy of the view restored when an escape is invalid","src/Ystring/Unescape.cpp: unescape_next")],
["caller's iterator or string_view before and after each call","value returned by the retry"])
p("C04","Decoding does not depend on how the bytes are delivered",
"Decoding a text incrementally while its bytes arrive in arbitrary pieces, by repeating a failed read when more bytes are there, yields the same code points in the same order as decoding the whole text, forwards or (reading a text from its end towards its start) backwards, and from any kind of bidirectional storage. Every code point whose bytes have all arrived is available at once, no read looks outside the bytes that have arrived, and when the stream stalls or ends the only undecoded bytes are those of one incomplete code point.",
["schedules","fault_sequences","inputs"],"every text of code points, every division into pieces, every delivery delay and stall, end of stream after any byte, contiguous and non-contiguous storage",
"The tests hand over whole literals at once; piece boundaries inside multi-byte sequences and retries are never exercised.",
[D],[("incomplete sequences are reported and left in place","include/Ystring/DecodeUtf8.hpp: decode_next, decode_prev, pop_utf8_codepoint, pop_last_utf8_codepoint")],
["sequence of decoded code points against the sequence sent","bytes left pending","positions the iterators were dereferenced at"])
p("C05","Damage to a text costs only the damaged characters",
"When bytes of a UTF-8 text are flipped, lost, inserted, cut off or spliced, a reader that skips forward or backward over what it cannot decode recovers every code point whose bytes arrived intact, each at its place and in order, and every skip makes progress. Replacing invalid sequences keeps all intact code points and turns each damaged stretch into at least one and no more code points than it has bytes; the result is always valid, repairing it again changes nothing, and an undamaged text is never altered and is reported as valid.",
["fault_sequences","inputs"],"every text of valid code points, every combination of bit flips, lost, inserted and duplicated bytes, truncation at either end and splices, both reading directions",
"The tests contain two damaged strings for repair and isolated skip cases; they cannot cover where a fault lands relative to the neighbouring characters.",
[D,A],[("skipping stops at the next non-continuation byte","include/Ystring/DecodeUtf8.hpp: skip_next, skip_prev"),("repair copies the valid runs and substitutes one replacement per invalid run","src/Ystring/Algorithms.cpp: replace_invalid_utf8, is_valid_utf8")],
["decoded (position, code point) pairs in both directions","repaired text"])
p("C06","Tokenizing conserves the text, also across interruptions",
"Walking a text token by token yields parts and separators that, put together in order, are exactly the original text, with every separator what the separator search reported and the remainder always being the rest of the text; splitting yields exactly those parts, up to the requested number of splits (one or more) followed by the unsplit rest, and ignoring empty parts drops nothing but empty parts; parts joined with a delimiter are exactly the parts with the delimiter between them, so that joining all parts with the string they were split at gives back the text. If the separator search fails part-way (an error thrown by it, invalid text, memory exhausted), the walk stays where it was and continues from there when asked again, without losing or repeating any text. All parts refer to the caller's own text.",
["histories","fault_sequences","inputs"],"every text and separator (string, character set, line breaks, caller-supplied search; case-sensitive or not), every limit of one or more splits, every call of the search that may fail, any number of retries",
"Tests split seven fixed strings; the separator accessor is never read and the search never fails.",
[T,AH,A],[("position and current token advanced by next()","include/Ystring/TokenIterator.hpp: next"),("loop collecting parts until the limit","include/Ystring/Algorithms.hpp: split_where")],
["part, token and remainder after every step","list returned by the split functions"],
[("m_str, m_token","unread text and the separator found last","include/Ystring/TokenIterator.hpp")])
p("C07","Caller-supplied callbacks may fail or call back in",
"When a predicate, separator search or iterator supplied by the caller throws, that very exception reaches the caller, the callback is not invoked again by the interrupted call, nothing is leaked, and repeating the call without the failure gives the full result. The text is offered to the predicate in order, one code point at a time from the searched end, a predicate or separator search that keeps a state of its own finds it kept from one invocation to the next (trimming both ends may begin anew at the other end), a predicate or separator search that keeps a state of its own finds it kept from one invocation to the next (trimming both ends may begin anew at the other end), and a callback that itself calls the library, on the same text or another, changes neither the outer call's result nor its own.",
["fault_sequences","inputs","histories"],"every searching, trimming, splitting and joining function taking a callback or iterators, every invocation at which the callback throws or re-enters the library",
"Test predicates never throw and never call the library.",
[AH,T],[("searches and trims forward to a single decode loop calling the predicate","include/Ystring/Algorithms.hpp: find_first_where, find_last_where, trim_where, split_where, join")],
["exception caught","recorded arguments of callback invocations","results of outer and inner calls"])
p("C08","Concurrent callers do not affect each other",
"Threads that call library functions at the same time, on separate data or on shared data that none of them modifies (including a shared code point set), each get exactly the result the same call gives when it runs alone, under every interleaving and also when another thread's call fails half-way or an allocation fails. No call leaves another thread's call waiting forever, and the calls contain no data race.",
["schedules","fault_sequences","inputs"],"every assignment of library calls to two or more threads, every interleaving of their individual memory accesses, with allocation failures in any of them",
"The tests are single-threaded; an interleaving of memory accesses cannot be chosen from a unit test.",
[A,C,CC,N,S,U,E,X],[("no mutable shared state: constant tables and automatic variables only","src/Ystring/*.cpp"),("const membership queries","src/Ystring/Char32Set.cpp: contains")],
["per-call results under the simulated schedule against results alone","conflicting accesses without ordering"])
p("C09","Damaged input never breaks a call",
"Given any bytes whatever as text, whole or damaged in transit, and any in-range byte offset and any character or code point position, every library call ends within a number of steps and an amount of memory bounded by a modest function of its input sizes, either with a result or with the library's own error. It never reads or writes outside the memory it was handed, and every subrange or view it returns on success lies inside the text it was given (a search that finds nothing reports an empty range).",
["inputs","fault_sequences"],"every operation on every byte string reached by damaging valid or escaped text in transit (flips, losses, insertions, truncation, splices), every byte offset from 0 to the length, every character position including far out-of-range ones",
"The tests call each function on a few literals; out-of-bounds reads near the end and endless loops need particular damaged endings.",
[A,AU,AH,D,U,E,N,C,X,CC],[("end checks in the decoders","include/Ystring/DecodeUtf8.hpp"),("bounds of escape sequences","src/Ystring/Unescape.cpp: find_first_escaped_char"),("termination of replacement and decomposition loops","src/Ystring/Algorithms.cpp: replace; src/Ystring/Normalize.cpp: to_decomposed")],
["outcome class, step count and allocated bytes of every call","address and bounds checks while it runs"])
p("C10","Writing to a failing stream never goes unnoticed",
"Writing a subrange or a code point set to an output stream delivers exactly its text to a healthy stream. If the stream's device accepts only part of it, fails or throws at any byte, what was delivered is a leading part of that text, the stream reports the failure in its state (or by its exception, if the caller asked for exceptions), nothing is leaked, and once the stream is usable again the complete text is written by a repeated call.",
["fault_sequences","inputs"],"every subrange and every code point set (ranges, single code points, negated or not), every byte at which the device stops, throws or writes short, with stream exceptions on or off",
"No test writes to a stream at all.",
[SU,S],[("formatted insertion of the pieces in order","src/Ystring/Subrange.cpp, src/Ystring/Char32Set.cpp: operator<<")],
["bytes accepted by the device","stream state or exception"])
p("C11","Editing sessions follow a simple model, whatever fails in between",
"A text edited through the library by inserting or replacing at character or code point positions (from either end), replacing substrings or code points (all, the first n or the last n), reversing, trimming and extracting equals, after every step, what the same edits give on a plain list of characters. An edit that fails (position out of bounds, invalid code point, memory exhausted) reports an error and leaves the text as it was, and never produces a partly edited text.",
["histories","fault_sequences","inputs"],"every sequence of edits over texts with one- to four-byte code points and combining marks, positive and negative positions in and out of range, with allocation failures at any point",
"Tests apply one edit to one literal; positions counted from opposite ends, sequences of edits and failures between them are not sampled.",
[A,AU],[("position arithmetic","src/Ystring/AlgorithmUtilities.cpp: get_char_substring_range, get_codepoint_substring_range"),("substring replacement","src/Ystring/Algorithms.cpp: replace; src/Ystring/AlgorithmUtilities.cpp: find_last_n, insert_at_offset, replace_subrange")],
["text after every edit against the model"])
p("C12","Repaired text is accepted everywhere",
"After text that was damaged in any way has been repaired by the library (or was reported valid by it), no other operation of the library reports it as invalid: counting, searching, comparing, slicing, reversing, splitting, trimming, case conversion, composition, decomposition and conversion to UTF-32 and back all succeed on it, and operations that produce text from it produce text that is again valid.",
["fault_sequences","inputs","histories"],"every text damaged in transit by any combination of flips, losses, insertions, truncations and splices, repaired with any valid replacement character, then passed through any sequence of operations",
"Tests never feed repaired text to another function; whether validation and the consumers agree on every byte pattern is a cross-component question.",
[A,D,C,N,X],[("validation and repair","src/Ystring/Algorithms.cpp: is_valid_utf8, replace_invalid_utf8"),("decode-or-throw used by all consumers","include/Ystring/DecodeUtf8.hpp: safe_decode_next, safe_decode_prev"),("encode-or-throw used by all producers","src/Ystring/Algorithms.cpp: append")],
["whether any stage of the pipeline reports an error","validity of every intermediate text"])
p("C13","A call's answer depends only on its arguments",
"The result of every library call depends only on the arguments of that call: not on which calls were made before, in which order, how often, or whether some of them failed or were abandoned by an exception, and not on process-wide settings such as the global locale. Results already handed out are not changed by later calls.",
["histories","fault_sequences"],"every history of library calls in any order with failures (invalid text, out of memory, throwing callbacks) and locale changes in between",
"Each test case makes a few calls in a fresh process and in a fixed order.",
[A,C,CC,N,U,E,X,S],[("stateless functions over constant tables","src/Ystring/*.cpp")],
["result of the same call at different points of different histories","earlier results re-read at the end"])

p("C14","Escaped records survive the channel",
"A text escaped as JSON contains no control character, no unescaped quote and no lone backslash, and is read by any JSON reader as the original text; the positions reported as needing an escape are exactly those that get one. Newline-terminated records made this way, delivered in pieces of any size, are recovered exactly: read character by character as their bytes arrive (each character as soon as its bytes are there, an incomplete one consuming nothing and saying whether it was escaped) and unescaped in one go, as a string or in place, with the same result. Records escaped by other senders with JSON or C-style escapes (surrogate pairs, hexadecimal, octal and control escapes) are read as what they say; an escape that lacks its digits or is cut off is reported, not read as something else. Damage to one record does not affect the others, and memory running out in between only means trying again.",
["inputs","schedules","fault_sequences","histories"],"every valid text, every division of the escaped records into pieces, every damage to some of them, restarts of the reader and allocation failures in the sender and the receiver",
"Tests use one literal for escaping and a few escapes for unescaping, all handed over whole.",
[E,U,A],[("escape switch","src/Ystring/Escape.cpp: escape_json, find_first_escapable_char"),("escape parsing","src/Ystring/Unescape.cpp: find_first_escaped_char, unescape, unescape_next")],
["records on the wire against an independent JSON reader","characters given out as bytes arrive","recovered texts"])
p("C15","Searching a text while it arrives finds what searching all of it finds",
"A searcher that looks for a substring (with or without regard to case), a character of a list or set, a character satisfying a predicate, or a line break, and that resumes where a match could still begin whenever more of the text has arrived, reports exactly the successive matches that searching the complete text reports: the first one forwards, the last one backwards (in a text arriving from its end), each at its place, with its length and its character, as soon as all its bytes are there, and an empty range while there is none. From any other place of the text the search reports the first match from there on (backwards: the last one that ends there or before). A text that ends in part of a code point at most makes it wait. The library's own predicates and character classes, used as the predicate, stand for what the shipped Unicode data says about each character. A carriage return or line feed at the edge of what has arrived is completed to one line break when the other half arrives. Restarting the search after the last match, or running out of memory, changes nothing.",
["inputs","schedules","fault_sequences","histories"],"every valid text and non-empty pattern or set, every division into arriving pieces, every polling schedule of several searchers, restarts and allocation failures at any poll",
"Tests search a handful of complete literals from offset 0.",
[A,AH,S,"src/Ystring/AlgorithmUtilities.hpp","include/Ystring/CaseInsensitive.hpp"],[("forward search from an offset","src/Ystring/Algorithms.cpp: find_first, find_first_newline; include/Ystring/Algorithms.hpp: find_first_where"),("backward search up to an offset","src/Ystring/AlgorithmUtilities.hpp: search_last; src/Ystring/Algorithms.cpp: find_last_newline; include/Ystring/Algorithms.hpp: find_last_where"),("case-insensitive search","src/Ystring/Algorithms.cpp: case_insensitive::find_first, find_last")],
["range and character of every match, per searcher and poll"])
p("C16","Positions do not depend on how much of the text has arrived",
"Counting characters or code points, locating number n of them (from the start, or from the end with negative n), cutting out substrings between two positions and stepping from character to character give the answers of a plain list of the characters that have arrived: ranges tile the text, the same character is found from both ends, and positions out of bounds (however far) are reported as such or cut off at the ends. What was answered about a character followed by another one stays true when more text arrives, forwards, and likewise backwards in a text arriving from its end; a walk resumed as the text arrives meets every character exactly once. Part of a code point at the edge of the arrived text only affects answers about that edge.",
["inputs","schedules","fault_sequences","histories"],"every valid text with one- to four-byte code points and combining marks, every division into arriving pieces, positions in and far out of range from both ends, restarts of the walks and allocation failures at any query",
"Tests use one or two literals per function, all complete.",
[A,AU],[("forward and backward stepping","src/Ystring/Algorithms.cpp: get_next_char_range, get_prev_char_range, get_char_pos, get_codepoint_pos, get_codepoint, get_char_range"),("positions counted from different ends","src/Ystring/AlgorithmUtilities.cpp: get_char_substring_range, get_codepoint_substring_range")],
["every answer against the list of characters that have arrived","characters met by the resumed walks"])

p("C17","Converting a text while it arrives gives what converting all of it gives",
"A chain of relays that convert a text to upper, lower or title case, compose or decompose it, take it to UTF-32 and back or repair it, piece by piece as the bytes arrive, cutting only where a piece stands for itself (composing: before a character that cannot join the one before it; title case: between words; otherwise: between code points), passes on exactly what converting the complete text at once gives, and that is the conversions of its code points put together: none is lost, repeated or moved, sharp s becomes two letters in upper and title case, composing joins a code point with what precedes it as long as there is such a composed form. A piece that ends in part of a code point is refused by the conversions. What is converted already stays as it is, and a text and its composed form decompose to the same text. A relay that crashes and reads on from what it has passed on, or runs out of memory and tries again, changes nothing.",
["inputs","schedules","fault_sequences","histories"],"every valid text (composed and decomposed letters with any number of marks among others), every division into pieces, chains of conversions with every order of delivery, crash and conversion steps, allocation failures in any of them",
"Tests convert a few short literals at once, with one composed letter each; what becomes of the letters between two of them is never looked at.",
[C,N,X,EN,A],[("copying of what lies between two conversions","src/Ystring/Normalize.cpp: to_composed, to_decomposed"),("word state of title case, expansion of sharp s","src/Ystring/ConvertCase.cpp: to_title, to_upper")],
["what every relay has passed on against the conversion of what it has received"])
p("C18","Comparisons hold while the text arrives and order names alike everywhere",
"Comparing what has arrived of a text with another text without regard to case (compare, less, equal, starts with, ends with, in either order of the arguments), testing whether it starts or ends with given bytes, or whether it contains a code point, gives the answer that follows from the upper case forms of the code points that have arrived, the first difference deciding and a leading part coming first. Once a difference has arrived the answer is the one for the complete text and does not change; part of a code point at the edge never decides anything, and only then may the comparison be refused. Replicas that keep directories of names ordered by these comparisons and learn of the same names in any order, repeatedly, in other letter case, with losses and rebuilds in between, end up with the same directory in the same order, in which compare, less and equal agree about every pair.",
["inputs","schedules","fault_sequences","histories"],"every pair of valid texts, especially those that differ in case, in one code point or in length, every division into arriving pieces from either end, every order, duplication and loss of the messages to the replicas, allocation failures at any comparison",
"Tests compare a handful of complete literals, most of them ASCII; consistency between the comparisons and over many texts is never tested.",
[A,"include/Ystring/CaseInsensitive.hpp",AU],[("code point by code point comparison","src/Ystring/Algorithms.cpp: case_insensitive::compare, less, equal"),("mismatch search from either end","src/Ystring/AlgorithmUtilities.hpp: next_case_insensitive_mismatch, prev_case_insensitive_mismatch"),("case fold",C)],
["answer of every comparison against the code points that have arrived","contents and order of the replicas"])

# ---- pure functions: not simulation targets
p("N01","UTF-8 encoding and decoding are exact",
"Converting any code point from U+0000 to U+10FFFF to UTF-8 gives the standard encoding, decoding that gives the code point back, and converting a whole text to UTF-32 and back is the identity.",
["inputs"],"all 0x110000 code points and all texts made of them","Tests sample some twenty code points.",[EN,D,X],[("length table and bit packing",EN)],["bytes and code points"])
p("N02","Character classes agree with the Unicode character database",
"The class reported for every code point, and every predicate derived from it, is the general category given for that code point in the Unicode data shipped with the project; code points not listed there are unassigned.",
["inputs"],"all code points","Tests check nine code points of a compressed table of about 1900 entries.",[CC,"src/Ystring/CharClassTables.hpp","include/Ystring/CodepointPredicates.hpp"],[("compressed range table",CC)],["get_char_class"])
p("N03","Case mapping agrees with the Unicode character database",
"Upper, lower and title case of every code point are the simple mappings of the shipped Unicode data, code points without a mapping are unchanged, and mapping a text maps each of its code points (with sharp s expanded to two letters in upper and title case).",
["inputs"],"all code points and all texts","Tests check a dozen letters.",[C,"src/Ystring/UpperCaseTables.hpp","src/Ystring/LowerCaseTables.hpp","src/Ystring/TitleCaseTables.hpp"],[("compact and plain mapping tables",C)],["to_upper, to_lower, to_title"])
p("N04","Composition and decomposition tables agree with the Unicode character database",
"Decomposing a text decomposes every code point outside Hangul that has a canonical decomposition into a pair, as far as that goes, and composing finds the composed form of every such pair, as the shipped Unicode data has them.",
["inputs"],"all code points and sequences of marks","Tests use two letters.",[N,"src/Ystring/NormalizationTables.hpp"],[("sorted packed tables",N)],["to_composed, to_decomposed, decompose"])
p("N05","Comparing two code points without regard to case is a consistent order",
"The case-insensitive comparisons of single code points (functions and function objects) agree with each other and with the order of their upper case forms.",
["inputs"],"all pairs and triples of code points","Tests compare a few letters.",[A,"include/Ystring/CaseInsensitive.hpp"],[("code point difference of upper case forms","include/Ystring/CaseInsensitive.hpp")],["case_insensitive_compare, _less, _equal and the function objects"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
