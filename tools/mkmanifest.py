#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE, EX = "model_checking", "fault_enumeration", "exploration"
CLAIMED = {
 "C01": (MC, "explicit-state BFS and exhaustive DFS over rust::String operation histories on the real code against a reference model", "All histories over the stated alphabet to the stated depth, plus BFS over states to a bound or to exhaustion. Trusts AddressSanitizer, the reference model and the platform allocator."),
 "C02": (EX, "exhaustive enumeration of byte, UTF-16 and comparison inputs over boundary alphabets against an independent decoder", "Every byte string to the stated length over 27 class-representative bytes, every unit string over 13 boundary units, every pair of texts; longer strings only by embedding."),
 "C03": (MC, "explicit-state BFS and exhaustive DFS over rust::Vec operation histories of 22 element types on the real code against std::vector", "All histories over the stated alphabet to the stated depth, plus BFS over states to a bound or to exhaustion. Trusts AddressSanitizer, the reference model and the platform allocator."),
 "C04": (MC, "explicit-state BFS and exhaustive DFS over slice and iterator transition systems on the real code against index arithmetic", "All histories over the stated alphabet to the stated depth, plus BFS over states to a bound or to exhaustion. Trusts AddressSanitizer, the reference model and the platform allocator."),
 "C05": (MC, "explicit-state BFS to exhaustion and exhaustive DFS over rust::Box and rust::Error histories, with throwing constructors as faults, against an ownership model", "All histories over the stated alphabet to the stated depth, plus BFS over states to a bound or to exhaustion. Trusts AddressSanitizer, the reference model and the platform allocator."),
 "C06": (MC, "explicit-state BFS and exhaustive DFS over CxxString histories and nested let_cxx_string! scopes with every way an initializer can end", "All histories over the stated alphabet to the stated depth, plus BFS over states to a bound or to exhaustion. Trusts AddressSanitizer, the reference model and the platform allocator."),
 "C07": (MC, "explicit-state BFS and exhaustive DFS over CxxVector histories of 18 element kinds on the real code against Vec", "All histories over the stated alphabet to the stated depth, plus BFS over states to a bound or to exhaustion. Trusts AddressSanitizer, the reference model and the platform allocator."),
 "C08": (MC, "explicit-state BFS and exhaustive DFS over UniquePtr, SharedPtr and WeakPtr histories against an ownership model with use counts", "All histories over the stated alphabet to the stated depth, plus BFS over states to a bound or to exhaustion. Trusts AddressSanitizer, the reference model and the platform allocator."),
 "C09": (MC, "exhaustive enumeration of calls (type x position x value, and all ordered pairs) on real generated shims against value equality and allocation balance", "181 value types in 15 signature positions with boundary values, every argument shape to 12 arguments; all ordered pairs of calls. One platform ABI."),
 "C10": (MC, "explicit-state BFS to exhaustion and exhaustive DFS over moves between Rust and C++ slots, with Err and exception faults, against an ownership model", "All histories over 76 calls to the stated depth for 22 kinds of owned value. Trusts AddressSanitizer, the ledger and the platform allocator."),
 "C11": (MC, "exhaustive enumeration of error histories, message bytes and chains of Rust and C++ frames on the real code against a reference interpreter", "All messages over the byte alphabet and all frame scripts to the stated depths, every return convention with every exception kind. Trusts AddressSanitizer and the C++ runtime."),
 "C17": (EX, "exhaustive enumeration of type expressions to a depth in every position, and of item-level cases, through generator, macro, g++ and rustc against the documented rules", "All types to the stated depth over 29 leaves in 15 positions; accepted ones compiled. The oracle restates the documentation and diagnostics."),
 "C14": (EX, "exhaustive enumeration of enum discriminant sequences, of struct reference graphs and of field sequences through generator, macro, g++, clang++ and rustc against the documented rules and each other", "All sequences and graphs to the stated sizes. x86-64 only."),
 "C13": (EX, "exhaustive enumeration of item placements executed in a linked program with decoys, of all pairs of declarations for distinct symbols, and of colliding names, on generator, macro, g++ and rustc", "13 item kinds x 3 module, 4 block and 4 item namespaces x renames; all pairs over 7 namespaces and 11 names. Symbols of an item are taken to depend only on it and its types."),
 "C15": (EX, "exhaustive enumeration of struct field types with every derive set, and of enum shapes, executed on all pairs of values in Rust and C++ against rustc's own derives", "All derive sets over the stated field kinds and value sets. The oracle is rustc's derive on a twin of the struct."),
 "C19": (MC, "exhaustive enumeration of cfg expressions and environments (three-valued) through generator, command line, cxx-build and rustc, at every position an attribute can stand", "All expressions over 3 atoms to the stated depth; all positions; the oracle is rustc for decided atoms and Kleene logic for undetermined ones. cfg_attr not covered."),
 "C20": (FE, "breadth-first enumeration of kills, torn and short writes and errors at every system call of real cxx-build scripts, from every disk state so reached, under a ptrace fault injector", "18 configurations (prefixes, links, spellings, edits); every modifying call as crash point, every call as failure, torn writes, things in the way of every output; every later run of every configuration has to converge to what a fresh run leaves and change nothing else."),
 "C24": (MC, "stateful exploration of the interleavings of the system calls of concurrent real cxx-build scripts under a ptrace scheduler, with a preemption bound", "All interleavings of non-commuting calls of two (thorough: three) scripts with at most 2 (4) preemptions, 10 (15) scenarios from 5 start states; at each step the finished scripts' headers are whole, at the end every output is."),
 "C16": (EX, "exhaustive enumeration of ordered pairs (type in the bridge, type in C++) in argument and return position, parameter lists, method qualifiers, enum values and underlying types, by-value types; of all pairs of type identities and kinds through rustc", "57 bridge types against 105 C++ types; what agrees is decided by std::is_same over the documented spelling. The sign of an enum of the same size and range is not judged."),
 "C18": (EX, "exhaustive enumeration of types x positions and of item kinds; each output compiled by itself under standards, compilers and inclusion modes, all together in a linked program, thorough: every pair of outputs that need different parts of the runtime", "Standards and inclusion modes rotate over the bridges in quick. Determinism is across repeated and reordered generator runs; documentation is judged by preprocessed tokens."),
 "C22": (EX, "exhaustive enumeration of bridges (types x positions, item kinds, pairs of file surroundings, refused inputs) through library, command line, build script and macro, and of command lines over small alphabets against the library's output", "Byte equality among front ends; every product of input, --header, lists of up to 2 (3) outputs, up to 2 includes and annotation; visibility of the compiled wrappers. Failure to write to standard output is not judged."),
 "C23": (EX, "exhaustive enumeration of programs over bridged types: every type x pointer wrapper x auto trait, every accessor of the library x misuse, every signature of a grammar of lifetimes x misuse, each judged by rustc against the documented traits or the same function in plain Rust", "Signatures of up to 2 arguments over 18 (10) argument and 16 (7) return types with every lifetime assignment; 12 misuses per accessor. Visibility of single items in a bridge is undocumented and not judged."),
 "C21": (MC, "exhaustive enumeration of dependency graphs and export configurations, and of CFG histories, executed by real build scripts in dependency order against reachability over declared exports", "Every subset of up to 2 (thorough: 3) of 9 dependencies with every export list of up to 2 elements, pairs of intermediate crates, chains; every history of CFG writes and reads to depth 3 (4). What #include finds on the real include path decides."),
 "C12": (FE, "exhaustive enumeration of entry point x panic kind x C++ context on the real code, each in a child process", "Every kind of shim the harness has, 9 panic kinds and 8 contexts; signals and exit codes decide."),
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
         notes="check.py <id> <tier> builds the harness of a property from /repo's working tree and explores; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in CLAIMED:
        l, t, n = CLAIMED[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                                thorough_cmd="python3 check.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
