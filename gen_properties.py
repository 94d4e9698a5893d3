#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Kept so that the file stays readable in review."""
import json, os
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

BP="src/ber/parser.rs"; BW="src/ber/wrap_any.rs"; DP="src/der/parser.rs"; BM="src/ber/multi.rs"; DM="src/der/multi.rs"
BT="src/ber/tagged.rs"; DT="src/der/tagged.rs"; BB="src/ber/ber.rs"; BI="src/ber/integer.rs"; SE="src/ber/serialize.rs"
PR="src/ber/print.rs"; VI="src/ber/visit.rs"; VM="src/ber/visit_mut.rs"

add("R01","Segmentation never changes what a stream of elements decodes to",
 "For any stream of back-to-back elements, intact or corrupted, a receiver that hands the bytes to the BER or DER element readers in arbitrary fragments, retrying whenever it is told that data is incomplete, obtains the same objects, the same rejections and the same consumed lengths as one that is given the whole stream at once. Each element is delivered on the fragment that carries its last byte, not before and not after.",
 ["inputs","schedules","fault_sequences"],
 "all streams of elements; all ways to cut, delay, batch, corrupt and truncate them before they reach the reader",
 "Tests parse whole buffers; the number of segmentations of one message is exponential and a wrong answer shows only when a cut falls inside a particular header, length or end-of-contents marker.",
 [BP,BW,DP],[("generic readers",BW+": parse_ber_any_r, parse_ber_any_with_tag_r"),("typed readers",BP+": parse_ber_with_tag; "+DP+": parse_der_with_tag, parse_der_recursive"),("content delimiting",BP+": ber_skip_object_content, ber_get_object_content")],
 "result of each reader call made by the simulated receiver")
add("R02","'Incomplete' is answered exactly while bytes of the element are missing",
 "A proper prefix of an element that decodes is always answered 'incomplete': never with an object, never with a rejection; and once every byte that the element's own lengths or end-of-contents marker delimit has arrived, the element readers give a final answer, object or rejection, and never ask for more. The count of missing bytes they report is at least one and never more than what really is missing.",
 ["inputs","schedules","fault_sequences"],
 "all elements (valid, corrupted, truncated by a lost connection) and all points at which delivery stops",
 "A reader that stalls on one kind of complete element, or rejects one kind of prefix, only shows when the transport stops at that exact byte; tests hold a handful of truncated inputs.",
 [BP,BW,DP],[("length check before content",BW+": try_read_berobjectcontent_as; "+DP+": der_read_element_content_as"),("bit string content",DP+": der_read_content_bitstring"),("end-of-contents search",BP+": ber_skip_object_content")],
 "Ok / Error / Incomplete of each reader call, and the Needed count")
add("R03","Decoding an element depends only on the element's own bytes",
 "Whatever bytes follow an element in the buffer, the readers and container combinators return the same object or rejection, leave exactly the bytes after the element as remaining input, and never pass to a callback, inspect, or expose in the result any byte outside the element. A final answer (object or rejection) that an element reader gives on the bytes received so far is never changed by bytes that arrive later.",
 ["inputs","histories"],
 "all elements followed by all possible later data (pipelined messages, garbage, another message's first bytes)",
 "Over-reads into the next message are invisible when the test buffer ends with the element or when the following bytes happen to be harmless.",
 [BP,BW,DP,BM,DM],[("content delimiting",BP+": ber_get_object_content"),("DER constraint checks on the content",DP+": der_read_element_content_as, der_read_content_bitstring"),("containers",BM+": parse_ber_container; "+DM+": parse_der_container")],
 "returned object, remaining input (address and length), slices inside the object")
add("R04","No input, however corrupted, makes the library panic, abort or hang",
 "For every byte string, every reader, combinator and conversion returns an object or an error in bounded time without panicking or overflowing the stack; and every object so obtained can be inspected with all accessors, iterated, visited, printed, compared, cloned and re-encoded under the same guarantee. The only exception is indexing out of range, which is documented to panic.",
 ["inputs","fault_sequences","histories"],
 "all byte strings, in particular valid messages hit by any sequence of bit flips, byte edits, cuts, duplications and splices; all follow-up operations on whatever was decoded",
 "Crash inputs are rare points in a huge space (a specific length, tag and content together) and often need a second operation on the decoded object.",
 [BP,BW,DP,BM,DM,BT,DT,BB,BI,SE,PR,VI,VM],[("readers",BP+", "+DP+", "+BW),("integer and bit string accessors",BB+", "+BI),("printer, visitors, encoder",PR+", "+VI+", "+VM+", "+SE)],
 "panic, process death or watchdog in the simulated process")
add("R05","Nesting depth, stack and memory stay bounded by the limits and bytes received",
 "The recursive readers never return an object nested deeper than their limit (50 levels by default, or the limit given by the caller): deeper input is rejected with the maximum-depth error, and input within the limit is not rejected for its depth. Stack use is bounded by that limit, and memory by a constant multiple of the bytes actually received, whatever nesting, lengths or counts the input claims.",
 ["inputs","configurations"],
 "all inputs including hostile nesting (definite, indefinite and mixed) and hostile declared lengths; all caller-chosen depth limits",
 "Off-by-one limits and limits that one path forgets need inputs built around each limit for each nesting form; memory and stack are not observed by tests at all.",
 [BP,BW,DP],[("depth accounting",BW+": parse_ber_any_r, try_berobject_from_any; "+BP+": ber_skip_object_content; "+DP+": der_read_element_content_as"),("default limit",BP+": MAX_RECURSION")],
 "result, nesting of the returned object, allocator counters, death by stack overflow")
add("R06","The DER readers accept only DER, at every nesting level",
 "The DER readers reject indefinite lengths, booleans that are not exactly one octet 00 or FF, integers that are empty or carry redundant leading zero octets, bit strings that are constructed, empty, declare more than seven unused bits or have unused bits set, constructed octet or character strings, and times that do not end in Z, both at top level and for elements nested at any depth inside sequences and sets. Everything they accept, the BER readers accept too, with an identical object and the same remaining input, and what the BER readers accept and these rules do not forbid, they accept.",
 ["inputs","fault_sequences"],
 "all byte strings; in particular every valid DER message turned into a non-DER one by an encoder or transport fault at any level",
 "Each constraint must hold for every type, position and nesting level; tests exercise single top-level elements.",
 [DP,DM,DT],[("constraints",DP+": der_read_element_content_as, der_read_content_bitstring"),("nested elements",DP+": der_read_element_content_as"),("containers and tagged objects",DM+": parse_der_container; "+DT)],
 "acceptance and returned object of DER readers compared with the model and with the BER readers")
add("R07","A received element decodes to exactly the value that was encoded",
 "For every well-formed BER element, the object obtained at the end of the transport has the class, tag, primitive/constructed form, length, content octets and children (all of them, in order) of the encoding, through the generic readers and through the reader dedicated to its type; readers dedicated to another tag number reject it. Content that its universal type does not allow (wrong character repertoire, malformed time, odd-sized or ill-formed BMP string, wrong size, primitive sequence) is rejected and everything else is accepted.",
 ["inputs","histories"],
 "all element trees over all universal types and all other classes, all definite/indefinite and short/long header forms, all corruptions of them",
 "A value-level error for one type, one header form or one position cannot be excluded by sampling a few encodings; the model decides every generated tree.",
 [BP,BW,DP,BB],[("dispatch on type",BW+": try_berobject_from_any"),("typed readers",BP+": parse_ber_*; "+DP+": parse_der_*"),("generic to object conversion",BB+": TryFrom<Any>")],
 "returned object tree, compared field by field with an independent reference decoder")
add("R08","Accessors return the exact value or an error, never a wrong value",
 "Reading a received object as a number yields exactly the mathematical value of its content, or an error when that value is negative for an unsigned type or does not fit the requested width (empty integers, negative ones padded with redundant FF octets and bit strings of more than 64 bits may be refused, but are never misread); the arbitrary-precision accessors are exact for every size, bit strings read as numbers drop exactly their unused bits, and single bits are numbered from the most significant. Every other accessor, iterator and in-range index returns exactly the stored content when the object has the matching type and an error otherwise; iterating by reference over anything but a sequence or set yields nothing, the consuming iterator yields the object itself.",
 ["inputs"],
 "all contents of integers, enumerated values, bit strings, strings, identifiers, sequences and sets, of every size, and all accessors applied to every type of object",
 "Sign, width and padding boundaries for four widths and arbitrary lengths cannot be enumerated by tests; wrap-around yields plausible wrong numbers.",
 [BB,BI,BP],[("integer decoding",BI+": decode_array_*; "+BB+": as_i32/as_i64/as_u32/as_u64/as_bigint/as_biguint"),("bit strings",BP+": bitstring_to_u64; "+BB+": BitStringObject"),("typed integer readers",BP+": parse_ber_i32..u64; "+DP+": parse_der_i32..u64")],
 "accessor results compared with big-integer reference arithmetic")
add("R09","A faulty output sink yields an error and never corrupt or partial success",
 "When encoding to a writer, success is returned only if the writer accepted exactly the bytes of the complete encoding, in order, once each; if the writer fails, is interrupted, is full or accepts only part of a write at any point, encoding returns an error, unless the complete encoding was accepted all the same, and what the writer holds is a prefix of the correct encoding. After a failure the same object can be encoded again, and decoding what survived recovers exactly the objects written completely, followed by 'incomplete'.",
 ["fault_sequences","crash_points","histories"],
 "all objects, all points at which the destination (or a scratch buffer) errs, is interrupted, fills up, writes short or the process dies, and all retry histories",
 "Tests encode into vectors that cannot fail; the outcome must be right for a fault at every single write call.",
 [SE],[("object encoders",SE+": ber_encode_object, ber_encode_object_raw, ber_encode_tagged_explicit, ber_encode_tagged_implicit"),("header and length",SE+": ber_encode_header, encode_length")],
 "bytes accepted by the simulated sink, returned result, decoded log after a crash")
add("R10","Encoding and decoding are inverse end to end",
 "An object built from values, or decoded from any element, and then encoded, transmitted and decoded gives back an equal object, with the same class, tag, form, content and children at every level and with definite lengths in their shortest form; encoding a decoded definite-length element whose headers are in shortest form (booleans as 00 or FF, enumerated values in shortest form, times with all their digits) reproduces its bytes exactly. Explicit and implicit tagging wrap and unwrap to the same inner value.",
 ["inputs","histories"],
 "all object trees over the supported universal types, tagged, optional and unknown objects, of every size around length-form boundaries, and all chains of encode/relay/decode",
 "Losses appear only for particular contents (zero, time zones, fractions, high tag numbers, absent optional values, lengths crossing 127/255/65535); tests encode one value per type.",
 [SE,BB,BP],[("content encoders",SE+": ber_encode_object_content, ber_encode_datetime"),("header encoder",SE+": ber_encode_header, encode_length"),("tagged encoders",SE+": ber_encode_tagged_explicit, ber_encode_tagged_implicit")],
 "object before and after, and the bytes on the simulated wire")
add("R11","Sequence and set combinators drive callbacks correctly, also when they fail",
 "The sequence, set and generic container combinators run the caller's parser on exactly the content of the container (for the 'of' forms: once per element, in order, each time on what the previous call left, until the content is used up), return its results in order and continue after the container whatever the parser left unread (the 'of' forms reject unread content). A container of another tag, a truncated definite container or an indefinite one in DER is refused without running the parser; an error of any caller-defined type is returned unchanged, and the combinator can be used again afterwards.",
 ["fault_sequences","histories","inputs"],
 "all containers and contents, all caller parsers that fail softly, fail hard, ask for more, consume nothing or too little at any call, all re-use histories",
 "Callback failure at each call index, with each failure kind and custom error type, multiplied by container forms, is beyond hand-written cases.",
 [BM,DM],[("containers",BM+": parse_ber_container; "+DM+": parse_der_container"),("'of' forms",BM+": parse_ber_sequence_of_v, parse_ber_set_of_v; "+DM+" same"),("'defined' forms",BM+": parse_ber_sequence_defined_g, parse_ber_set_defined_g; "+DM+" same")],
 "recorded history of callback invocations (argument address and length, header) and returned results")
add("R12","Tagged and optional combinators honour tag, class, form and absence",
 "Explicit tagging accepts exactly constructed, non-universal elements with the requested tag, implicit tagging exactly elements with the requested tag; both run the caller's parser once on exactly the element's content with the element's header, return its result or its error unchanged, and refuse anything else without running it. The optional forms never fail: any failure yields an absent value and leaves the input untouched, any success yields the value unchanged and the input after it; the DER forms refuse indefinite lengths.",
 ["fault_sequences","histories","inputs"],
 "all elements, requested tags and classes, all caller parsers failing in any way at any call, all re-use histories",
 "Tests cover one failing and one passing case per combinator; absence must hold for every failure kind (soft, hard, incomplete) at every point.",
 [BT,DT,BP,DP],[("explicit",BT+": parse_ber_tagged_explicit_g; "+DT+" same"),("implicit",BT+": parse_ber_tagged_implicit_g; "+DT+" same"),("optional",BP+": parse_ber_optional, parse_ber_explicit_optional, parse_ber_implicit; "+DP+": parse_der_explicit_optional, parse_der_implicit")],
 "recorded callback history, returned object or error, remaining input")
add("R13","Results do not depend on history or on other users of the library",
 "The result of every operation is a function of its arguments alone: however operations of several tasks are interleaved, suspended inside caller-supplied parsers, visitors, sinks or memory allocation, moved between threads, failed or abandoned half-way by a panic, each operation returns what it returns when run alone in a fresh process.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of operations of several tasks and threads, all histories of earlier operations, including failed and abandoned ones",
 "Hidden state (a cache, a depth counter, a scratch buffer) gives right answers in any test that runs one operation at a time.",
 [BP,BW,DP,BM,SE,PR,VI],[("all public operations","src/ber, src/der"),("suspension points","callbacks, visitors, std::io::Write sinks, global allocator")],
 "results of each operation under the simulated schedule compared with its result alone")
add("R14","Visitors see every node exactly once, in document order, at its depth",
 "Visiting an object reports each node of its tree (the object and, at any depth, the members of sequences and sets) exactly once, a parent before its children and children in encoding order, first through the general callback and then through the callback of its type, with the node's own value (the wrapped object for tagged and optional nodes, which are not entered) and with the depth counted from the given starting depth. What the mutable visitor's callbacks change is what is visited next and what remains in the object, everything else is untouched, and a callback that panics leaves the object consistent and every other object and later visit unaffected.",
 ["inputs","histories","fault_sequences"],
 "all object trees, all starting depths, all callbacks that edit the tree or panic at any call",
 "Twenty-eight callbacks in two visitors over arbitrary trees; a skipped or doubled callback for one type at one position is easily missed.",
 [VI,VM],[("read-only traversal",VI+": visit_ber_bfs, run, run_at"),("mutable traversal",VM+": visit_ber_bfs_mut, run, run_at")],
 "recorded callback history compared with a traversal of the model tree")
add("R15","Printing is total, faithful to the tree and reports sink failures",
 "Pretty-printing any object writes the same text every time, containing for each node of the tree one entry with its type and value, in order and indented by level, where options (recursion, headers) change only what they name; a sink that fails at any point makes printing return an error immediately after having received a prefix of that text. Printing never alters or fails on an object for its content.",
 ["inputs","fault_sequences"],
 "all decoded objects, option and indentation settings and all points at which the text sink fails",
 "Printing code has one arm per type with its own decoding; sink failures are never exercised by tests.",
 [PR],[("printer",PR+": Debug for PrettyBer, dbg_header, next_indent")],
 "text accepted by the simulated sink and the returned result")
add("N01","The compile-time identifier macro encodes every identifier as X.690 prescribes",
 "For every object identifier or relative identifier written in source, the compile-time macro produces the X.690 encoding, rejects identifiers it cannot represent, and the textual form of the result is the identifier written.",
 ["programs","inputs"],
 "all identifiers that can be written in a program",
 "Component values are unbounded; tests list a few identifiers.",
 ["der-oid-macro/src/lib.rs","src/lib.rs"],[("component encoding","der-oid-macro/src/lib.rs: encode_components")])
add("N02","Every feature combination compiles and behaves the same on the common part",
 "With any combination of optional features, including without the standard library, the library compiles and the operations common to the combinations return the same results.",
 ["configurations"],
 "all feature combinations and targets",
 "Tests run with all features enabled only.",
 ["Cargo.toml","src/lib.rs"],[("feature gates","Cargo.toml, src/lib.rs, src/ber/mod.rs")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
