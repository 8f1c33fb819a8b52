#!/usr/bin/env python3
"""Regenerates properties.jsonl (the text of the properties lives here, for readability)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

I = "include/upd/"
p("C01", "Integers are encoded exactly as the chosen byte order and sign format say",
  "Storing an integer (bool, character or any 8 to 64 bit integer type) produces exactly sizeof(T) bytes which are the representation of that value in the selected endianness (little or big) and signed number format (sign-magnitude, ones' complement, two's complement or offset binary). This holds for every value the format can represent, down to the minimum of the type in two's complement and offset binary, and encoding any value at all is free of undefined behaviour.",
  ["inputs", "configurations"], "every integer type x 2 byte orders x 4 signed formats x every value (all of the 8 and 16 bit ones, boundaries and random for the wider ones), with and without the platform format being declared",
  "The tests encode a handful of positive and small negative values per format; the domain has 2^64 values per format, and the minimum values were in fact undefined behaviour.",
  [I+"detail/endianess.hpp", I+"detail/signed_representation.hpp", I+"detail/serialization.hpp"],
  [("byte order conversion", I+"detail/endianess.hpp:to_endianess"), ("sign conversion", I+"detail/signed_representation.hpp:to_signed_mode")],
  ["bytes of upd::tuple after construction or set()"])
p("C02", "Any received bytes decode to the one value they represent",
  "Reading an integer out of any byte sequence whatsoever yields the value which those bytes represent in the selected endianness and signed format (negative zeros read as 0, any non-zero byte reads as bool true), without undefined behaviour. Encoding then decoding any representable value gives it back, and decoding never modifies the bytes.",
  ["inputs", "configurations"], "every byte sequence of every integer type x 2 byte orders x 4 signed formats, with and without the platform format being declared",
  "Tests decode only bytes they have just encoded from tame values; a remote peer or a noisy line can send any of the 256^n patterns.",
  [I+"detail/endianess.hpp", I+"detail/signed_representation.hpp", I+"detail/serialization.hpp"],
  [("byte order conversion", I+"detail/endianess.hpp:from_endianess"), ("sign conversion", I+"detail/signed_representation.hpp:from_signed_mode")],
  ["upd::tuple::get, upd::get, iteration over the tuple bytes"])
p("C03", "Tuples and views lay values contiguously and touch only their own bytes",
  "The serialized form of a tuple is the concatenation, in declaration order and without any padding, of its elements (arrays element by element), its advertised size is the sum of its elements' serialized sizes, and a default-constructed tuple encodes zero values. Setting an element changes exactly the bytes of that element and reading one changes nothing; a view over any forward iterator or sub-range of a tuple reads and writes exactly the bytes of the underlying range it designates, never any outside of it.",
  ["inputs", "histories", "programs"], "every list of element types, element index, sub-range, iterator kind and sequence of gets and sets",
  "Tests check a few fixed tuples on aligned buffers; offsets, sub-views, non-contiguous iterators and neighbouring bytes are sampled once or not at all.",
  [I+"tuple.hpp", I+"detail/serialization.hpp"],
  [("element offsets", I+"tuple.hpp:tuple_base::get/set"), ("sub-views", I+"tuple.hpp:tuple::view, make_view"), ("iterator access", I+"detail/serialization.hpp:read_as/write_as")],
  ["raw bytes of the tuple or of the guarded buffer under a view"])
p("C04", "Tuple assignment and invocation preserve every value in order",
  "Assigning a tuple or view to another one with the same element types but any other byte order or signed format copies the values (not the bytes), all of which are read before the first one is written, so that a packet may be converted where it is by views overlapping in any way, and invoking a functor on a tuple calls it exactly once with all of the stored values in declaration order and returns what it returned. Structured bindings and the free get and set functions give access to the same values.",
  ["inputs", "configurations"], "every list of element types x source format x destination format x values representable in both",
  "Tests convert between two formats with small values; the product of formats, types and values is never walked.",
  [I+"tuple.hpp"],
  [("element-wise assignment", I+"tuple.hpp:tuple_base::operator="), ("invocation", I+"tuple.hpp:tuple_base::invoke")],
  ["upd::tuple::invoke arguments and result, bytes after assignment"])
p("C05", "Request packets are the callback's index followed by its arguments only",
  "For every callback of a keyring, the request produced by its key is the callback's position in the list, as the smallest unsigned integer type able to hold the number of callbacks, followed by the arguments in order, all in the keyring's format and with nothing in between or after; the advertised payload length is the number of bytes produced. The index is unique to the callback, whatever the number of callbacks (including 255, 256 and more) and their signatures.",
  ["inputs", "programs", "configurations"], "every keyring (size, signatures, format) x key x argument values",
  "Tests use keyrings with a few callbacks and one-byte indices, and never look at what a two-byte index does.",
  [I+"key.hpp", I+"keyring.hpp", I+"detail/serialized_message.hpp", I+"detail/type_traits/smallest.hpp"],
  [("index assignment", I+"keyring.hpp:keyring::key_t"), ("packet content", I+"detail/serialized_message.hpp")],
  ["bytes given to the byte putter by key(args...).write_to / >>"])
p("C06", "A request runs the right callback exactly once and returns its result",
  "When the bytes produced by a key are given to any kind of dispatcher built from the same keyring, the callback of that key, and no other, is invoked exactly once with the arguments given to the key, and decoding the produced response with the same key yields exactly what the callback returned. This holds for both storage policies, every serialization format, every argument and return type (including references, arrays, booleans and types with a user extension), and any sequence of requests.",
  ["inputs", "histories", "configurations"], "every keyring, format, policy, dispatcher kind, sequence of requests and argument and return values",
  "Tests make a couple of calls per dispatcher with fixed arguments, one format and narrow return types.",
  [I+"dispatcher.hpp", I+"action.hpp", I+"key.hpp", I+"buffered_dispatcher.hpp"],
  [("argument decoding and result encoding", I+"action.hpp"), ("index lookup", I+"dispatcher.hpp:dispatcher::operator()"), ("response decoding", I+"key.hpp:key::read_from")],
  ["log of callback invocations with arguments and results", "value returned by key::read_from"])
p("C07", "Plain dispatchers consume one request and produce one response, exactly",
  "Each invocation of an unbuffered dispatcher pulls exactly the bytes of one request from the source, in order, pushes exactly the bytes of its response, and returns the received index, so that a concatenation of requests is processed without ever losing synchronization. An index which is out of range, whatever the bytes, consumes the index only, invokes nothing, outputs nothing and is still returned.",
  ["inputs", "histories"], "every byte stream, valid or not, cut into successive dispatcher invocations",
  "Tests give one well-formed request to a dispatcher and do not count the bytes that were pulled or pushed, nor follow with another request.",
  [I+"dispatcher.hpp", I+"action.hpp"],
  [("index extraction and bound check", I+"dispatcher.hpp:dispatcher::get_index, operator(), get_action"), ("argument pulling", I+"action.hpp:call")],
  ["number and order of byte getter and putter invocations, returned index"])
p("C08", "Buffered dispatchers frame any byte stream exactly as specified",
  "For any byte stream fed in any chunks, by single-byte puts or by blocking reads in any mix, a buffered dispatcher reports loading until the index or request is complete, drops the packet exactly when the completed index is out of range (and starts afresh with the next byte), and resolves it exactly on the last byte of the request, invoking the callback once at that moment. A blocking read pulls no byte past the end of the current packet, so no garbage or partial packet ever makes a later valid request be lost, duplicated or misread beyond its own bytes.",
  ["inputs", "histories", "schedules"], "every byte stream x chunking x interleaving of put, read_from and call operators",
  "Tests feed one valid request and a single invalid byte; resynchronization after arbitrary histories and partial packets is never observed.",
  [I+"buffered_dispatcher.hpp"],
  [("loading state machine", I+"buffered_dispatcher.hpp:put"), ("blocking read", I+"buffered_dispatcher.hpp:read_from")],
  ["status returned for every byte, callback log, bytes pulled"],
  [("loading state", "whether the index is known and how many bytes are missing", I+"buffered_dispatcher.hpp")])
p("C09", "Responses come out of buffered dispatchers once, whole and in order",
  "After a request resolves, a buffered dispatcher outputs exactly the bytes of the response in order, each once, however single-byte gets and full writes are mixed; it reports being loaded exactly while some remain, reading from it when empty has no visible effect, and a request returning nothing leaves it empty. Dropped packets and partially received ones never alter a pending response of a double-buffered dispatcher, and a newly resolved request replaces what was left of the previous response.",
  ["histories", "schedules"], "every history of requests, dropped packets, gets, writes and loaded queries",
  "Tests read a response back-to-back right after it was produced; partial reads, over-reads and replacement are not exercised.",
  [I+"buffered_dispatcher.hpp"],
  [("output buffer", I+"buffered_dispatcher.hpp:get, write_to, is_loaded, call")],
  ["bytes obtained from get / write_to, is_loaded after every operation"],
  [("output window", "next byte to send and end of the response", I+"buffered_dispatcher.hpp")])
p("C10", "No input makes a dispatcher access memory outside its buffers",
  "Whatever bytes are received and whatever the callbacks return, dispatchers never read or write outside their buffers, including when a user-defined buffered dispatcher provides buffers of exactly the sizes its largest request and largest response need. The buffer sizes advertised by the provided dispatchers are exactly the largest request (index included) and the largest response, and the input and output sizes advertised by each action are exactly the bytes it consumes and produces.",
  ["inputs", "programs", "histories"], "every keyring (argument and return types of any relative sizes) x byte stream x chunking x policy",
  "Tests use keyrings whose arguments are as large as their return values and run without memory checking; return values wider than arguments did overflow.",
  [I+"buffered_dispatcher.hpp", I+"action.hpp", I+"detail/type_traits/signature.hpp"],
  [("buffer sizing", I+"buffered_dispatcher.hpp:needed_input_buffer_size, needed_output_buffer_size"), ("load count", I+"action.hpp:input_size, output_size")],
  ["AddressSanitizer / UBSan on the dispatcher objects and on guarded exact-size buffers", "advertised sizes against measured bytes"])
p("C11", "Double-buffered dispatchers receive while sending without interference",
  "In a double-buffered dispatcher, any interleaving of the bytes of an incoming request with the reading of the previous response yields the same response bytes, statuses and invocations as handling them one after the other, up to the byte that completes the new request. No byte of one direction ever shows up in the other.",
  ["schedules", "histories"], "every interleaving of the bytes of requests and responses",
  "Tests never interleave; the number of interleavings is exponential.",
  [I+"buffered_dispatcher.hpp"], [("separate buffers and cursors", I+"buffered_dispatcher.hpp:double_buffered_dispatcher")],
  ["bytes out, statuses and callback log for every interleaving"])
p("C12", "An exception from a callback or stream leaves dispatchers usable",
  "If a callback throws, the exception reaches the caller, the request is considered consumed, no response is produced for it, and the next request is handled normally by every kind of dispatcher. If the byte source throws, a buffered dispatcher keeps what it had received and resumes with the next byte; if the byte sink throws, the bytes not yet handed to it are still delivered once, in order.",
  ["fault_sequences", "histories"], "every position at which a callback, a byte getter or a byte putter throws, in any history",
  "No test ever throws; a throwing callback did corrupt memory on the following bytes.",
  [I+"buffered_dispatcher.hpp", I+"dispatcher.hpp", I+"action.hpp"],
  [("state reset before invocation", I+"buffered_dispatcher.hpp:call"), ("cursor update before handing over", I+"buffered_dispatcher.hpp:get")],
  ["exceptions seen by the caller, statuses, output and log of what follows"])
p("C13", "reply() forwards a whole response as a request, or does nothing",
  "When the pending response has not been partially read and fits in the buffer parameter of the given key, replying sends exactly one request for that key whose argument is the response followed by zeros, empties the dispatcher and reports success. Otherwise it sends nothing, leaves the pending response untouched and reports failure.",
  ["inputs", "histories"], "every pending response (length, content, progress of its reading) x buffer size of the target callback x kind of output",
  "The test replies once with a fixed result that fits, and never looks at the bytes after it.",
  [I+"buffered_dispatcher.hpp"], [("precondition and forwarding", I+"buffered_dispatcher.hpp:reply")],
  ["bytes sent, return value, is_loaded and remaining bytes"])
p("C14", "Replacing a callback affects that callback only, from the next call on",
  "After a callback is replaced in any dispatcher, by a function or, when the policy allows it, any functor, requests for its index run the replacement and all the other indices are unaffected, at any moment and any number of times, even between the bytes of a request or while a response is pending. Framing, sizes and pending output are unchanged by a replacement, and other dispatchers made from the same keyring keep their own callbacks.",
  ["histories", "schedules"], "every sequence of replacements interleaved with bytes of requests and responses, on several dispatchers",
  "Tests replace one callback once, before any traffic, and call it once.",
  [I+"dispatcher.hpp", I+"buffered_dispatcher.hpp"], [("action slot assignment", I+"dispatcher.hpp:replace, operator[]")],
  ["callback log after each replacement, statuses and outputs"])
p("C15", "Owned callbacks live exactly as long as the action that holds them",
  "An action, or a dispatcher with the any-callback policy, given a functor holds its own copy (or the moved object): invoking it after the original was modified or destroyed uses the state it had when given, state changes made by the invocations persist between them, and every held functor is destroyed exactly once, when it is replaced or when its owner (followed through moves) is destroyed. No invocation ever copies or leaks a functor.",
  ["histories", "programs"], "every sequence of constructions, moves, replacements, invocations and destructions with functors of any value category, size and state",
  "Tests use captureless lambdas and never look at lifetimes; functors given by name did dangle.",
  [I+"action.hpp", I+"dispatcher.hpp", I+"key.hpp"], [("owning type-erased storage", I+"action.hpp:action, action_model")],
  ["construction / destruction census of instrumented functors", "AddressSanitizer and LeakSanitizer"])
p("C16", "The weak-reference policy and serialization never allocate memory",
  "Building, feeding, replacing callbacks of and destroying any kind of dispatcher with the weak-reference policy, producing requests with keys, decoding responses and using tuples and views perform no dynamic allocation at all. With the any-callback policy, processing requests performs none either: only storing a callback does.",
  ["inputs", "histories", "programs"], "every history of operations on every kind of dispatcher, key, tuple and view",
  "No test observes the allocator; embedded users rely on the absence of allocation on every path.",
  [I+"action.hpp", I+"dispatcher.hpp", I+"detail/function_reference.hpp"], [("function references instead of owning wrappers", I+"detail/function_reference.hpp"), ("no-storage actions", I+"action.hpp:no_storage_action")],
  ["counting replacements of malloc and operator new"])
p("C17", "Response hooks made by a key receive exactly what the remote returned",
  "For any key and any response bytes produced for it, the hook action made from a key (owning or not) consumes exactly the response bytes and invokes the hook exactly once with the value the remote callback returned, in the key's format. Blocking decoding by the same key consumes exactly the same bytes and yields the same value, and a key for a callback returning nothing consumes nothing.",
  ["inputs", "configurations"], "every key, format and response bytes, including arbitrary ones",
  "Tests hook one callback on one value in one format.",
  [I+"key.hpp", I+"action.hpp"], [("hook creation", I+"key.hpp:with_hook"), ("blocking decoding", I+"key.hpp:read_from")],
  ["hook argument log, number of pulled bytes"])
p("C18", "The wire format is the same for every build configuration and standard",
  "A peer built with C++11 and one built with C++17, with or without the platform's byte order and signed format being declared at build time, produce identical packets for identical calls and react identically to identical byte streams. Only the keyring, never the build configuration or the compiler, determines what is on the wire and which callbacks run with which values.",
  ["configurations", "inputs"], "every pair of build configurations (standard, declared platform, compiler, optimization) x every history of calls and received bytes",
  "Each configuration runs the same fixed tests by itself; nothing compares the bytes of one build against those of another.",
  [I+"upd.hpp", I+"detail/endianess.hpp", I+"detail/signed_representation.hpp", I+"detail/type_traits/typelist.hpp"],
  [("platform fast paths", I+"detail/endianess.hpp, "+I+"detail/signed_representation.hpp"), ("two typelist implementations", I+"detail/type_traits/typelist.hpp")],
  ["digest of the full transcript of each build"])
p("C19", "Independent objects can be used from different threads without a race",
  "Keyrings, keys and const tuples may be shared by any number of threads, and different dispatchers (even made from the same keyring), actions, tuples and messages may each be used by its own thread, without any data race and with the same results as when used alone. The library keeps no hidden shared mutable state.",
  ["schedules"], "every schedule of threads each using its own dispatchers, actions and tuples and the shared keys and const tuples",
  "All the tests are single-threaded.",
  [I+"dispatcher.hpp", I+"action.hpp", I+"key.hpp", I+"tuple.hpp"], [("absence of static mutable state", I)],
  ["ThreadSanitizer reports, per-thread transcripts compared to a sequential reference"])
p("C20", "No uninitialized or stale byte ever reaches the wire or decides anything",
  "Every byte produced by keys, dispatchers, actions, replies and tuples is a function of the values given by the user: none comes from uninitialized memory or from a previous request, response or packet. No decision of the library depends on uninitialized memory, starting from a freshly constructed object in memory of any prior content.",
  ["inputs", "histories", "programs"], "every history of requests and responses of varying sizes on objects constructed over poisoned memory",
  "Tests compare only the bytes they expect, in memory that usually happens to be zero.",
  [I+"buffered_dispatcher.hpp", I+"tuple.hpp", I+"action.hpp"], [("initialization of cursors, tuples and reply buffers", I+"buffered_dispatcher.hpp, "+I+"tuple.hpp")],
  ["MemorySanitizer on bytes handed to the sink, pattern-poisoned twin runs"])
p("C21", "Python keys encode and decode exactly like the wire format says",
  "For every exposed key, Python's encode gives the exact request bytes and index the C++ key produces for the same values and decode gives the exact value of any response. Arguments of the wrong number or type or out of the range of the C++ parameter, and payloads too short to decode, raise a Python exception instead of producing a wrong value or crashing the interpreter.",
  ["inputs", "programs"], "every exposed signature x every Python value (in range, out of range, wrong type or count) x every payload",
  "The tests encode and decode one-byte values; a truncated payload did crash the interpreter.",
  [I+"python.hpp", "py/unpadded/_details.cpp"], [("encode / decode bindings", I+"python.hpp:define_pykey")],
  ["return values and exceptions in a Python subprocess, against a model in Python"])
p("C22", "Python dispatchers behave as the C++ ones, with Python callbacks included",
  "A dispatcher exposed to Python gives, for any history of put, get, read_from, write_to, is_loaded and replace, the statuses, bytes and callback invocations specified for a double-buffered dispatcher. An exception or an unconvertible result from a Python callback, getter or putter propagates to the caller and leaves the dispatcher usable, replaced callbacks are kept alive exactly as long as needed, and a key of another keyring is refused by replace.",
  ["histories", "fault_sequences", "inputs"], "every history of operations on exposed dispatchers, with Python callbacks which return, raise or return unsuitable values",
  "Tests do one request per dispatcher; failures of Python code and foreign keys are never tried.",
  [I+"python.hpp", I+"buffered_dispatcher.hpp"], [("dispatcher bindings", I+"python.hpp:declare_dispatcher"), ("Python callback wrapping", I+"python.hpp:define_pykey")],
  ["return values, exceptions, weak references to callbacks, AddressSanitizer on the extension"])
p("C23", "Python client calls each get their own result in any completion order",
  "However many calls are made concurrently through a client and in whatever order their responses complete, fail or are cancelled, each call sends exactly one request with its own encoded arguments and completes with its own outcome: the decoded value of its own response bytes, the object itself when the response is not bytes, or the very exception its request failed with. A client that does not define how to send requests raises NotImplementedError.",
  ["schedules", "fault_sequences"], "every interleaving of concurrent calls, completions, failures and cancellations",
  "Tests await one call whose future is already complete.",
  ["py/unpadded/client.py"], [("request / response association", "py/unpadded/client.py:Client.call")],
  ["outcome of every call against the request it made"])
p("C24", "The import hook always loads the current extension and hides no module",
  "With the import hook installed, importing an opted-in C++ module for the first time in an interpreter always gives the behaviour of its current sources, including changes made in headers it includes and after earlier builds were left behind, with the include directories and the C++17 mode the package promises. Importing any other module behaves as without the hook, a module which fails to build raises ImportError without breaking later imports, importing twice gives the same module, initialized once, and what a module imports itself is what any module would get. (One thread of one process importing C++ modules at a time.)",
  ["histories", "programs", "fault_sequences"], "every history of edits (source, header), failed and successful builds, and imports of extension, plain and missing modules",
  "The test imports one never-modified extension once.",
  ["py/unpadded/hook.py", "py/unpadded/__init__.py"], [("rebuild on every first import", "py/unpadded/hook.py:Hook.find_spec"), ("re-entrancy guard", "py/unpadded/hook.py:Hook")],
  ["behaviour of the modules imported in a fresh interpreter after each edit"])
p("C25", "All forms of byte streams are equivalent",
  "Reading and writing through a callable, through any suitable iterator (pointer, container iterator, inserter, list or stream iterator) or through the stream operators transfers the same bytes, in the same order, each exactly once, and gives the same result for keys, messages, actions and every kind of dispatcher. Callables are used by reference and in place, so their state advances exactly by the bytes transferred, and iterators are advanced no further than the bytes transferred.",
  ["inputs", "programs"], "every pair of input and output stream forms x operation x content",
  "Tests use one or two forms per operation and do not check how far streams were advanced.",
  [I+"detail/io/immediate_reader.hpp", I+"detail/io/immediate_writer.hpp", I+"detail/io/immediate_process.hpp"],
  [("stream adaptation", I+"detail/io/*.hpp")], ["transcripts per stream form, counts of dereferences and increments"])
p("C26", "Types with a user extension are packed, round-trip and never clobber",
  "A type with a user extension takes on the wire exactly the bytes of the fields its extension declares, wherever it is used: alone, between other elements, through views on any iterator, as callback argument or return value with either policy. It round-trips through requests, responses, tuples and views in every format, its size is what keys, actions and buffers account for, and its neighbours are never altered.",
  ["inputs", "programs", "configurations"], "every user-extended type (padded or not, nested) x position x format x iterator kind x policy",
  "Tests serialize one user type whose fields happen to fill it; padded ones made requests never resolve.",
  [I+"detail/serialization.hpp", I+"tuple.hpp", I+"key.hpp", I+"action.hpp"], [("extension dispatch", I+"detail/serialization.hpp:read_as/write_as"), ("serialized size", I+"tuple.hpp:serialization_size")],
  ["bytes, sizes and values against an independent reference"])
p("C27", "Objects are values: copies and moves at any moment behave as the original",
  "A dispatcher of any kind, a tuple, a view, a key, a message or an action which is copied (when its policy allows it), moved, assigned or swapped at any moment, in the middle of a packet or of the reading of a response included, gives an object which continues exactly as the original would have: same pending bytes, same callbacks, same statuses. A copy is independent of its original, which can be destroyed, reused or made to diverge without any effect on it.",
  ["histories", "inputs"], "every history of operations x every point at which objects are copied, moved, assigned or swapped",
  "Tests never copy or move a dispatcher nor a tuple after its construction.",
  [I+"buffered_dispatcher.hpp", I+"dispatcher.hpp", I+"tuple.hpp", I+"action.hpp"], [("state of a dispatcher", I+"buffered_dispatcher.hpp:buffered_dispatcher"), ("storage of tuples", I+"tuple.hpp:tuple")],
  ["bytes, statuses and invocations of the copies and of the originals, after destruction of either"])

p("C28", "Interrupts may use the library between any two instructions of code using it",
  "Code which uses tuples, views, keys, hooks or dispatchers may be interrupted between any two of its instructions by a handler which uses other objects of the library, or constant objects shared with the interrupted code: both observe exactly what they would observe alone, whatever the formats, the optimization level and the number of interrupts. Besides, a handler may give the bytes of a request, except for the one which completes it, to a double-buffered dispatcher whose response is being read (by get, write_to or >>), or read the response of one which is receiving the next request: the response, the statuses and the answer to that next request are the same as without interrupts.",
  ["schedules", "histories", "configurations"], "every pair of pieces of work x every set of instructions of the first one after which the second one occurs",
  "The README says that the library is designed to work with hardware interrupts, and no test ever interrupts anything: a hidden static buffer or a counter shared by both halves of a dispatcher goes unnoticed.",
  [I+"buffered_dispatcher.hpp", I+"detail/serialization.hpp", I+"dispatcher.hpp", I+"key.hpp", I+"tuple.hpp"],
  [("separate states of reception and transmission", I+"buffered_dispatcher.hpp:buffered_dispatcher::put, get"), ("no hidden state", I+"detail/serialization.hpp")],
  ["hashes of everything observed by the interrupted code and by the interrupts", "bytes read, statuses returned and answers of the dispatcher whose halves are used at once"])
p("C29", "Misuses of the interface are rejected at compile time",
  "A program which gives a key arguments that its callback does not accept, replaces a callback by one of another signature, asks a keyring for a callback that it does not hold, stores a functor where the policy forbids it, serializes a type which has no serialization, or replies to a key whose callback does not take a single array of bytes, does not compile.",
  ["programs"], "every program which misuses the interface in one of these ways",
  "Tests are programs which compile: none of them can show that another one does not.",
  [I+"detail/static_error.hpp", I+"keyring.hpp", I+"dispatcher.hpp", I+"action.hpp", I+"tuple.hpp"],
  [("static assertions", I+"detail/static_error.hpp"), ("signature of replacements", I+"dispatcher.hpp:dispatcher::replace")],
  ["none: nothing is executed"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
