#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "rust::String in C++ is an owned UTF-8 string under every operation history",
  "For every sequence of public rust::String operations from C++ (construction from every source type, copy, move, assignment including self-assignment, swap, c_str, reserve, iteration, conversion to std::string and to rust::Str), every live string holds exactly the text an ordinary owned string would hold and that text is valid UTF-8. A moved-from string is an empty usable string, copies never share storage, c_str is NUL-terminated without changing the value, and reserve gives at least the requested capacity. Every allocation is released exactly once, including when a constructor throws.",
  ["histories", "inputs"], "all operation sequences up to a depth over two string slots and a small set of texts (empty, ASCII, multi-byte, with embedded NUL)",
  "tests/ffi/tests.cc runs a few fixed scenarios; aliasing, moved-from reuse and throw paths depend on the history",
  ["include/cxx.h", "src/cxx.cc", "src/symbols/rust_string.rs"],
  [("String special members call the cxxbridge1$string$* shims", "src/cxx.cc"), ("shims write into MaybeUninit / drop in place", "src/symbols/rust_string.rs")],
  ["rust::String public members in C++", "Rust global allocator balance"], [("String::repr", "moved bytes of a Rust String", "include/cxx.h")])

p("C02", "Text crosses the boundary as valid UTF-8/UTF-16 or is rejected or repaired",
  "Constructing rust::String or rust::Str from C++ bytes succeeds exactly when the bytes are valid UTF-8 (for rust::String from char16_t, valid UTF-16), preserves the text, and otherwise throws std::invalid_argument; the lossy constructors replace exactly the maximal invalid parts with U+FFFD as Rust's own lossy conversions do. Comparison operators on rust::String and rust::Str are the total order and equality of the corresponding Rust values, in agreement with each other. Streaming, conversions to std::string and Rust-side views (str, lossy, Display, Debug) of the same text agree.",
  ["inputs"], "all byte strings up to a length over an alphabet of UTF-8 boundary bytes, all 16-bit unit strings up to a length over surrogate boundary units, all pairs of texts from a boundary set",
  "tests sample a handful of literals; the encoding state machine has many boundary cases",
  ["src/cxx.cc", "include/cxx.h", "src/symbols/rust_str.rs", "src/symbols/rust_string.rs", "src/cxx_string.rs"],
  [("initString / initStr check the bool returned by Rust validators", "src/cxx.cc"), ("std::str::from_utf8 / from_utf16 / lossy", "src/symbols/rust_string.rs")],
  ["rust::String and rust::Str constructors, lossy, operators"])

p("C03", "rust::Vec<T> in C++ behaves as a growable array owning its elements",
  "For every sequence of public rust::Vec operations from C++ (initializer list, push_back, emplace_back, reserve, truncate, clear, element access and assignment, copy, move, self- and cross-assignment, swap, iteration), size, contents, order, front/back, and at()'s out-of-range throw match a reference vector, and capacity never falls below size or the reserved amount. Each element is destroyed exactly once, copies are deep, and an argument that aliases an element of the same vector is handled correctly. This holds for every element kind: primitives, rust::String, shared structs and enums, trivial C++ types and opaque Rust types.",
  ["histories", "inputs", "programs"], "all operation sequences up to a depth over two vector slots for each element kind",
  "tests run short fixed scripts over few element types; reallocation, aliasing and throw paths depend on history",
  ["include/cxx.h", "src/symbols/rust_vec.rs", "src/rust_vec.rs", "gen/src/write.rs", "macro/src/expand.rs"],
  [("rust::Vec template over reserve_total/set_len/truncate/drop shims", "include/cxx.h"), ("per-type shim generation", "gen/src/write.rs, macro/src/expand.rs")],
  ["rust::Vec public members in C++", "live-element ledger", "allocator balance"])

p("C04", "rust::Slice and vector iterators are exact contiguous random-access views",
  "A rust::Slice made from any container, pointer and length, or received from Rust as &[T] or &mut [T], views exactly the elements of its source (same address, order, length), a slice passed to Rust is always a well-formed Rust slice even when empty, and writes through mutable slices are seen by the owner. at() throws std::out_of_range exactly for out-of-range indices. Iterators of Slice and Vec satisfy the random-access laws (difference, offset, ordering, indexing, increment and decrement agree with positions) for every element size.",
  ["inputs", "histories"], "all slice lengths up to a bound, all element sizes in a set, all pairs of positions and all offsets staying in range, all operation sequences on iterators up to a depth",
  "tests iterate forward over a couple of slices; sizes, empty slices, negative offsets and ordering are not enumerated",
  ["include/cxx.h", "src/cxx.cc", "src/rust_slice.rs", "src/symbols/rust_slice.rs"],
  [("Slice iterators step by stride obtained from size_of<T>", "include/cxx.h"), ("sliceInit / slicePtr / sliceLen", "src/cxx.cc, src/symbols/rust_slice.rs")],
  ["rust::Slice and rust::Vec iterators", "pointer/length seen by Rust"])

p("C05", "rust::Box and rust::Error in C++ own their payload exactly once",
  "For every sequence of rust::Box operations from C++ (construct from a const or temporary value, in_place, move, move assignment including self-assignment, swap, into_raw, from_raw, dereference, passing to and from Rust) each boxed value is destroyed exactly once, stays at one address, and reads give the value last stored; if constructing the payload throws, nothing is destroyed and no memory leaks. For every sequence of rust::Error copy, move and assignment operations what() returns the original message and the message storage is released exactly once.",
  ["histories", "fault_sequences"], "all operation sequences up to a depth over two slots; every copy that can throw, throwing",
  "tests use a box once or twice; throw paths and moved-from histories are not enumerated",
  ["include/cxx.h", "src/cxx.cc", "gen/src/write.rs", "macro/src/expand.rs"],
  [("Box allocation guard and drop shims", "include/cxx.h"), ("Error special members", "src/cxx.cc")],
  ["rust::Box / rust::Error public members", "payload ledger", "heap balance"])

p("C06", "CxxString in Rust behaves as std::string for every operation history",
  "For every sequence of CxxString operations from Rust (push_str, push_bytes, clear, reserve, formatted writing, hashing, comparison, conversion) on strings owned by UniquePtr or pinned on the stack by let_cxx_string!, contents and length equal those of a reference byte string, including embedded NULs and non-UTF-8 bytes, to_str errs exactly on invalid UTF-8, and C++ sees the same bytes. Equality, ordering and hashing are consistent with the bytes, and Display/Debug show the lossy text. A stack string is destroyed exactly once if it was initialised and never otherwise, even when its initialiser panics or returns early.",
  ["histories", "inputs"], "all operation sequences up to a depth over two strings and all byte strings of a boundary set",
  "tests/cxx_string.rs checks a few literals",
  ["src/cxx_string.rs", "src/cxx.cc"],
  [("extern \"C\" string shims", "src/cxx_string.rs, src/cxx.cc"), ("StackString", "src/cxx_string.rs")],
  ["CxxString public API", "std::string contents seen by C++", "heap balance"])

p("C07", "CxxVector<T> in Rust behaves as std::vector<T> for every operation history",
  "For every supported element kind and every sequence of CxxVector operations from Rust (new, push, pop, get, index_mut, shared and exclusive iteration, slices, lengths, Debug) mixed with changes made by C++, the observed length, contents and order match a reference vector and what C++ sees. get and index_mut return None exactly out of range, pop returns the last element or None, iterators report exact remaining lengths and hand out each element once, and slices are well formed. Elements are neither leaked nor destroyed twice.",
  ["histories", "programs"], "all operation sequences up to a depth for every element kind (each primitive, CxxString, opaque C++ type, shared struct)",
  "tests touch a few operations for few element kinds; the per-element shims are generated separately for each kind",
  ["src/cxx_vector.rs", "src/cxx.cc", "gen/src/write.rs", "macro/src/expand.rs"],
  [("VectorElement shims", "src/cxx_vector.rs, src/cxx.cc, gen/src/write.rs, macro/src/expand.rs")],
  ["CxxVector public API", "std::vector seen by C++", "element ledger"])

p("C08", "UniquePtr, SharedPtr and WeakPtr obey the C++ ownership model from Rust",
  "For every sequence of UniquePtr, SharedPtr and WeakPtr operations from Rust (null, new, clone, drop, downgrade, upgrade, as_ref, as_mut, into_raw, from_raw, comparison and formatting) and every supported pointee kind, the pointee is destroyed exactly when its last owner goes away and never twice, upgrade yields the object exactly while an owner lives, null pointers are observed as null and dereferencing them panics rather than touching memory. C++ code observing the same pointers agrees on identity, value and use count.",
  ["histories", "programs", "schedules"], "all operation sequences up to a depth over three slots per pointer kind and pointee kind; all interleavings of two threads' reference-count operations at operation granularity",
  "tests hold one or two pointers in fixed patterns",
  ["src/unique_ptr.rs", "src/shared_ptr.rs", "src/weak_ptr.rs", "src/cxx.cc", "gen/src/write.rs", "macro/src/expand.rs"],
  [("UniquePtrTarget / SharedPtrTarget / WeakPtrTarget shims per type", "macro/src/expand.rs, gen/src/write.rs, src/cxx.cc")],
  ["pointer public API", "C++ use_count", "pointee ledger"])

p("C09", "Every accepted function signature transfers argument and return values exactly",
  "For every function signature the bridge accepts, in both directions (Rust calling C++, C++ calling Rust), as a free function, a method with any receiver form, or through a function pointer, fallible or not, the callee observes exactly the argument values and identities the caller passed and the caller observes exactly the returned value. References and slices alias the caller's objects so mutations through them are visible to the other side.",
  ["programs", "inputs"], "all signatures of a grammar: every supported type as argument at each position and as return, pairs of types from each passing convention, every receiver form, both directions, fallible and infallible, function pointers",
  "tests/ffi lists about two hundred hand-chosen signatures; conventions combine (indirect return with fallible with receiver ...) beyond them",
  ["macro/src/expand.rs", "gen/src/write.rs", "syntax/types.rs", "syntax/pod.rs", "syntax/improper.rs", "src/function.rs", "src/rust_str.rs", "src/rust_slice.rs"],
  [("matching direct/indirect ABI decision in both generators", "syntax/types.rs, gen/src/write.rs, macro/src/expand.rs")],
  ["values logged by callee and caller"])

p("C10", "Values moved across a call are owned by exactly one side and freed once",
  "For every accepted signature and both directions, whether the call returns normally, returns Err or throws, each object passed by value, returned by value, or stored in a shared struct is destroyed exactly once overall and never used after destruction. No memory is leaked by the glue on any of these paths.",
  ["programs", "fault_sequences"], "every owned type and passing convention as argument and return, in both directions, with the callee returning normally and failing at every failure point",
  "tests do not count destructions across signatures or failing paths",
  ["macro/src/expand.rs", "gen/src/write.rs", "src/result.rs", "include/cxx.h"],
  [("MaybeUninit/ManuallyDrop on the Rust side, ManuallyDrop/MaybeUninit on the C++ side", "macro/src/expand.rs, gen/src/builtin.rs")],
  ["destruction ledgers on both sides", "heap balance"])

p("C11", "Errors cross the boundary as Err or rust::Error with their message intact",
  "A C++ function declared to return Result yields Err exactly when it throws an exception the active trycatch handles, with what() equal to the message (lossily decoded), and Ok with the value otherwise; state already changed by the callee stays. A Rust function declared to return Result makes C++ see rust::Error exactly when it returned Err, whose what() is the error's Display text, and the returned value otherwise. Custom trycatch handlers and repeated or nested failures through both languages follow the same rule.",
  ["programs", "fault_sequences", "histories"], "every return convention crossed with every exception kind and message of a boundary set (empty, long, non-ASCII, invalid UTF-8, embedded NUL), all nestings of Rust/C++ frames up to a depth, all sequences of successes and failures up to a depth",
  "tests throw one message in few signatures",
  ["src/result.rs", "src/exception.rs", "src/symbols/exception.rs", "src/cxx.cc", "gen/src/write.rs", "macro/src/expand.rs"],
  [("trycatch wrapper and PtrLen encoding", "gen/src/write.rs, gen/src/builtin.rs, src/result.rs")],
  ["Result seen by Rust", "rust::Error seen by C++"])

p("C12", "A Rust panic never unwinds into C++; it aborts the process",
  "Whenever Rust code invoked from C++ panics, by any kind of generated or built-in entry point (functions, methods, destructors, comparison and hash operators, clone, error formatting, container element drops, callbacks), the process aborts before control returns to C++ and no C++ frame or handler sees the panic. A panic caught inside Rust has no such effect.",
  ["programs", "fault_sequences"], "every kind of C++-to-Rust entry point, with a panic injected at each user-code point it can reach",
  "the tests never panic across the boundary, since that kills the test process",
  ["src/unwind.rs", "macro/src/expand.rs", "src/symbols"],
  [("prevent_unwind guard around shim bodies", "src/unwind.rs, macro/src/expand.rs")],
  ["wait status of a child process", "output markers after the call"])

p("C13", "Names, namespaces and symbols resolve to the intended item and never collide",
  "In every accepted bridge, each function, method and type is reachable in each language under the documented name: C++ items live in the namespace given by item, block or module in that priority, cxx_name and rust_name rename only their own language. Distinct items of a bridge get distinct link symbols, and both generators agree on each symbol, so every call reaches the very item it names.",
  ["programs"], "all bridges with up to a few items over small alphabets of namespaces, type names, function names, renames and receivers",
  "tests cover a handful of namespaces and renames, not their combinations",
  ["syntax/mangle.rs", "syntax/symbol.rs", "syntax/namespace.rs", "syntax/attrs.rs", "syntax/names.rs", "gen/src/nested.rs", "gen/src/out.rs", "gen/src/block.rs"],
  [("mangling scheme", "syntax/mangle.rs"), ("namespace blocks", "gen/src/out.rs")],
  ["identity returned by each call", "compile and link of the bridge"])

p("C14", "Shared structs and enums have one definition common to both languages",
  "For every accepted shared struct, size, alignment and field offsets are equal in Rust and C++ whatever the order of declarations, and any acyclic set of shared types yields C++ that compiles; cyclic ones are rejected. For every accepted shared enum both languages use the same underlying integer type, the smallest (or declared) one fitting all discriminants, and the same discriminant for every variant, following the implicit previous-plus-one rule; enums that do not fit are rejected.",
  ["programs"], "all structs with up to a few fields over an alphabet of field types including arrays and nested structs in all declaration orders; all enums with up to a few variants over boundary discriminants and all reprs",
  "tests have a dozen fixed structs and enums",
  ["syntax/toposort.rs", "syntax/discriminant.rs", "gen/src/write.rs", "macro/src/expand.rs", "syntax/tokens.rs"],
  [("topological sort", "syntax/toposort.rs"), ("discriminant inference", "syntax/discriminant.rs")],
  ["sizeof/alignof/offsetof and enum values printed by both languages"])

p("C15", "Derived traits mean the same thing in Rust and in C++",
  "For every shared struct and enum and every set of derives, the C++ comparison operators and std::hash produced for it exist exactly as documented and give the same answers as the Rust traits on the same values, including float NaN, user-visible field order and nested types. Rust-side derives (Clone, Copy, Debug, Default, Eq, Ord, Hash) follow the standard field-by-field meaning.",
  ["programs", "inputs"], "all sets of comparison derives crossed with a set of field types; all pairs of values over boundary values per field",
  "tests compare two or three values of one or two types",
  ["macro/src/derive.rs", "syntax/derive.rs", "gen/src/write.rs", "macro/src/expand.rs"],
  [("operator shims", "macro/src/expand.rs, gen/src/write.rs"), ("derive expansion", "macro/src/derive.rs")],
  ["results of operators and hashes in both languages"])

p("C16", "C++ declarations that disagree with the bridge are rejected at compile time",
  "If the C++ declaration of a function, method, extern enum, extern type or trivially relocatable type differs from what the bridge says (argument or return type, constness, reference kind, variant value, size of the underlying type, non-trivial move or destructor), compiling the generated C++ fails; if they match it compiles. On the Rust side an extern type alias is accepted exactly when the type's identity names the same C++ type and, for by-value use, its kind is trivial.",
  ["programs"], "all ordered pairs of (declared, actual) types from an alphabet for argument and return positions, all receiver constness combinations, all small enum mismatches, all pairs of type identities from an alphabet of names",
  "a mismatch is a compile failure, of which tests hold only a few UI cases, none on the C++ side",
  ["gen/src/write.rs", "src/extern_type.rs", "macro/src/type_id.rs", "macro/src/expand.rs", "include/cxx.h"],
  [("function pointer initialisation with the exact declared type", "gen/src/write.rs"), ("static_assert emission", "gen/src/write.rs"), ("verify_extern_type", "macro/src/expand.rs")],
  ["compiler verdict per declaration"])

p("C17", "The bridge accepts exactly the documented types in each position",
  "For every type expression in every position (argument, return, field, pointee, element, receiver) the generator accepts it exactly when the documented rules allow it, reports an error otherwise rather than crashing or emitting code, and never allows an unsized or opaque type by value, an unpinned mutable reference to an opaque C++ type, or a safe mutable return without a mutable source. Whatever is accepted yields code that compiles.",
  ["programs"], "all type expressions of nesting depth two over all builtin and user-declared type kinds in all positions and both languages; all item attribute placements of a small alphabet",
  "tests/ui holds about a hundred negative samples",
  ["syntax/check.rs", "syntax/parse.rs", "syntax/trivial.rs", "syntax/error.rs"],
  [("typecheck", "syntax/check.rs")],
  ["Ok/Err of the code generator", "compiler verdict on accepted bridges"])

p("C18", "Generated C++ is complete, self-contained and independent of unrelated items",
  "For every accepted bridge, the generated header and source compile on their own in every supported C++ standard with or without the runtime header included by the user, the header can be included repeatedly, before or after the runtime header and together with other bridges' headers, and contains everything C++ needs to use the bridge. Output is a function of the input only: repeated runs give identical bytes and a bridge without C++ items still yields valid files.",
  ["programs", "configurations"], "all bridges using one or two of the builtin features, with every combination of inclusion mode and language standard",
  "tests compile one large bridge that pulls every helper in at once, so a missing helper or dependency cannot show",
  ["gen/src/builtin.rs", "gen/src/include.rs", "gen/src/ifndef.rs", "gen/src/write.rs", "gen/src/out.rs", "include/cxx.h"],
  [("builtin dependency flags", "gen/src/builtin.rs"), ("include flags", "gen/src/include.rs")],
  ["compiler verdict", "byte equality of outputs"])

p("C19", "Conditional compilation selects the same items in both languages",
  "For every cfg expression on any item, field, variant or block and every configuration, the C++ generators keep an item exactly when the expression is true for that configuration as rustc evaluates it. When the configuration needed to decide is not available the generator reports an error instead of guessing, unless the rest of the expression already decides it.",
  ["configurations", "programs"], "all cfg expressions up to a depth over a few predicates, all assignments of them (true, false, unknown), all placements; cargo's environment encoding of features and cfgs and the command line's encoding",
  "tests/ffi uses a single always-true cfg",
  ["gen/src/cfg.rs", "syntax/cfg.rs", "gen/build/src/cargo.rs", "gen/cmd/src/cfg.rs", "gen/cmd/src/app.rs"],
  [("three-valued evaluation", "gen/src/cfg.rs"), ("cargo env evaluator", "gen/build/src/cargo.rs"), ("flag evaluator", "gen/cmd/src/cfg.rs")],
  ["items present in the generated C++"])

p("C20", "Build-script output converges after any failure and stays in allowed places",
  "Whatever point a build script is killed at or whatever file operation fails, running it again without faults leaves exactly the files a fresh run leaves, and a run that reports success has written complete, correct files. Re-running with unchanged input changes no generated file; inputs, sibling files and anything outside the output and shared directories are never modified, whatever path spelling (absolute, dot-dot, symlinked directories) is given.",
  ["crash_points", "fault_sequences", "histories", "inputs"], "every file-system call of a run as crash point or failure, from each starting directory state (absent, complete, stale, wrong kinds of entries), all short sequences of runs with edited inputs, all path spellings of a small alphabet",
  "the tests only exercise pure path arithmetic",
  ["gen/build/src/out.rs", "gen/build/src/lib.rs", "gen/build/src/paths.rs", "gen/build/src/target.rs", "gen/src/fs.rs"],
  [("write-if-changed, remove-then-create", "gen/build/src/out.rs"), ("local_relative_path", "gen/build/src/paths.rs")],
  ["directory trees after the runs", "exit status"])

p("C21", "Header visibility between crates follows the declared exports",
  "For every set of direct dependencies and every build configuration (include_prefix, exported_header_dirs, exported_header_prefixes, exported_header_links), the include directories given to the C++ compiler and the directories published to dependent crates are exactly those the documentation promises, in priority order, those of several dependencies only once, and invalid configurations are reported as errors. Configuration reads always return the values most recently written, from any sequence of writes.",
  ["configurations", "histories"], "all dependency environments over a small set of crates, prefixes, links and shared directories crossed with all export configurations; all short sequences of configuration writes and reads",
  "no test covers the propagation",
  ["gen/build/src/deps.rs", "gen/build/src/lib.rs", "gen/build/src/cfg.rs", "gen/build/src/intern.rs", "gen/build/src/vec.rs"],
  [("direct_dependencies / print_to_cargo", "gen/build/src/deps.rs"), ("make_this_crate, validate_cfg", "gen/build/src/lib.rs")],
  ["cargo: metadata lines", "include flags passed to the compiler", "exit status"])

p("C22", "All front ends generate the same code and the command line does what it says",
  "For every accepted bridge the build-script generator, the command line tool and the embedding library produce the same header and source, and all three and the macro agree on which bridges are errors. For every combination of command line options each requested output receives exactly the kind of content its name or flag asks for, includes appear once each in order, impl annotations apply to every function that Rust calls in C++ and change nothing else, and failure (other than of standard output) gives a nonzero exit with no output file written.",
  ["configurations", "programs"], "all combinations of input, header flag, output list, includes and annotation over small alphabets; a set of bridges through all front ends",
  "the command line test only checks the help text",
  ["gen/cmd/src/main.rs", "gen/cmd/src/app.rs", "gen/lib/src/lib.rs", "gen/src/mod.rs", "gen/build/src/lib.rs"],
  [("shared generator", "gen/src/mod.rs"), ("output kind selection", "gen/cmd/src/main.rs")],
  ["files, stdout and exit status"])

p("C23", "Safe Rust cannot misuse bridged types: auto traits, pinning and lifetimes hold",
  "Types that the bridge or library exposes to Rust are Send, Sync, Unpin, UnwindSafe and movable exactly as documented: opaque C++ types are none of Send, Sync, Unpin by default, CxxString and CxxVector are never Unpin, none of them can be held by value, and smart pointers and vectors inherit thread safety from their elements as the documentation states. Functions that are unsafe in the bridge are unsafe to call, and returned references cannot outlive what they borrow from. A function of a bridge may be called exactly as a Rust function of the same signature.",
  ["programs"], "every bridged type kind crossed with every auto trait and pointer wrapper; every borrow shape of a small grammar crossed with misuse patterns",
  "tests/ui has a handful of compile-fail samples",
  ["src/opaque.rs", "src/cxx_vector.rs", "src/unique_ptr.rs", "src/shared_ptr.rs", "src/weak_ptr.rs", "macro/src/expand.rs"],
  [("Opaque marker fields", "src/opaque.rs"), ("generated signatures", "macro/src/expand.rs")],
  ["compiler verdict per snippet"])

p("C24", "Build scripts running at the same time do not corrupt each other's output",
  "When several build scripts generate code into the same target directory concurrently, under every interleaving of their file operations each one succeeds and at the end every generated file and link in every output directory and in the shared directory is present and complete. No script ever compiles against a missing or partial header of its own.",
  ["schedules"], "all interleavings of the file-system calls of two build scripts up to a bound on context switches, from each starting state of the shared directory",
  "build scripts race only rarely and no test runs two",
  ["gen/build/src/out.rs", "gen/build/src/lib.rs"],
  [("AlreadyExists tolerated, identical content assumption", "gen/build/src/out.rs")],
  ["exit statuses and directory trees"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
