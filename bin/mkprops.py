#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts is this file)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe))))

# ---- Rust runtime -------------------------------------------------------------------------------------------
p("R01", "CxxVector gives Rust exactly the C++ vector's elements",
  "For every vector contents, Rust's length, indexed access, slice view, iterators and push/pop on a C++ vector agree with the vector's own size and element addresses: an index below the size yields that very element, any other index yields nothing, iteration visits every element once in order with an exact remaining count, push hands the value to C++ exactly once, and pop moves out the last element or returns nothing when empty. No C++ accessor is ever called outside its own precondition.",
  ["inputs"], "all vector sizes, indices, element values and addresses; iteration over vectors up to 4 elements",
  "tests push a handful of elements into one or two vectors; the boundary index, the null data pointer of an empty vector and every size cannot be sampled",
  ["src/cxx_vector.rs"], [("bounds test before unchecked access", "src/cxx_vector.rs: CxxVector::get, index_mut, pop"), ("null-pointer check for the slice view", "src/cxx_vector.rs: as_slice, as_mut_slice")],
  ["CxxVector API"])
p("R02", "UniquePtr owns its pointee exactly once and forwards to it faithfully",
  "For every null or non-null pointer, a unique pointer on the Rust side destroys its pointee exactly once when dropped unless it was released, releases and adopts raw pointers unchanged, and dereferences to exactly the pointee. Dereferencing null always panics instead of touching memory; comparing, ordering, hashing, formatting, reading, writing, flushing and seeking give exactly the pointee's own answer, with null equal to null and ordered before every non-null pointer.",
  ["inputs"], "all pointer values and pointee values of the instantiated types",
  "the tests exercise a few non-null pointers; nullness combinations, ownership counts and forwarding of every optional trait method are not observed",
  ["src/unique_ptr.rs"], [("drop/into_raw/from_raw protocol", "src/unique_ptr.rs"), ("null checks", "src/unique_ptr.rs: as_ref, as_mut, deref")], ["UniquePtr API, UniquePtrTarget hooks"])
p("R03", "SharedPtr and WeakPtr keep the C++ reference counts balanced",
  "For every null or non-null pointer, each clone of a shared or weak pointer adds exactly one reference of its own kind, each drop removes exactly one, downgrade creates a weak reference without changing the strong count, and upgrade yields null or a shared pointer holding exactly one extra strong reference. A shared pointer dereferences to exactly its pointee and panics on null; comparing, ordering, hashing and formatting give exactly the pointee's answer with null handled as absent.",
  ["inputs"], "all pointer and pointee values, both pointer kinds",
  "tests look at one or two use_count values; lost or doubled references and null handling across all operations are not observed",
  ["src/shared_ptr.rs", "src/weak_ptr.rs"], [("paired C++ constructor/destructor calls", "src/shared_ptr.rs, src/weak_ptr.rs")], ["SharedPtr/WeakPtr API"])
p("R04", "CxxString exposes exactly the C++ string's bytes to Rust",
  "For every byte content (including NUL and invalid UTF-8), a C++ string viewed from Rust reports exactly its bytes and length, is accepted as UTF-8 text precisely when it is valid UTF-8, compares, orders and hashes as its byte slice, and displays as the lossy UTF-8 rendering of its bytes, including width and padding as for a Rust string. Appending, clearing, reserving, formatting into it and writing to it hand C++ exactly the given bytes and amounts, and a stack-allocated string is initialised once from the given bytes and destroyed exactly once.",
  ["inputs"], "all contents and lengths for access and mutation; contents up to 3 or 4 bytes for comparison, hashing, UTF-8 checking and display",
  "a test samples a few ASCII strings",
  ["src/cxx_string.rs", "src/lossy.rs"], [("data/length accessors", "src/cxx_string.rs"), ("chunked lossy decoding", "src/lossy.rs")], ["CxxString API"])
p("R05", "Rust strings, slices and vectors cross the FFI boundary unchanged",
  "Every conversion between a Rust str, slice, String or Vec (shared or mutable reference, or owned value) and the representation shared with C++ preserves address, length, contents and ownership in both directions, and an empty slice coming from C++ with a null pointer becomes a valid empty slice. The string entry points C++ uses create, clone, validate, transcode, compare, measure, reserve and destroy exactly as the Rust standard library operation they stand for, refusing invalid UTF-8 and UTF-16 instead of creating a malformed string.",
  ["inputs"], "all pointers, lengths and values for conversions; contents of bounded length for UTF-8/UTF-16 validation and transcoding",
  "tests pass a few short strings and vectors",
  ["src/rust_str.rs", "src/rust_slice.rs", "src/rust_string.rs", "src/rust_vec.rs", "src/symbols/"], [("transmute/repr conversions", "src/rust_*.rs"), ("exported entry points", "src/symbols/*.rs")], ["exported cxxbridge1$string$*, $str$*, $slice$* symbols"])
p("R06", "Results and exceptions are translated one-to-one between Rust and C++",
  "Whatever a Rust function returns, C++ sees success with exactly that value written once, or a failure whose message is exactly the displayed text of the error; whatever C++ reports, Rust sees the success value, or an error whose text is exactly the C++ message with any invalid UTF-8 replaced. On the failure path no return value is written, on the success path no message is allocated, and each message buffer is owned exactly once.",
  ["inputs"], "all results, all error texts up to the stated bound",
  "tests throw and return a few fixed errors",
  ["src/result.rs", "src/exception.rs", "src/symbols/exception.rs", "src/unwind.rs"], [("PtrLen tagging", "src/result.rs"), ("message copy", "src/symbols/exception.rs, src/result.rs: to_c_error")], ["Exception, private::Result"])
# ---- generated Rust -----------------------------------------------------------------------------------------
p("R07", "A C++ function called from Rust receives and returns exactly the given values",
  "For every supported signature, the Rust function generated for a C++ function calls it exactly once, passing every argument (by value, reference, pinned reference, pointer, slice, string, smart pointer, box, shared struct or enum) with the same value or address in the same position and with ownership of by-value arguments handed over exactly once. Its return value, receiver and success or error outcome are exactly those C++ produced, nothing is leaked or destroyed twice, and nothing is read from the return slot when C++ reports failure.",
  ["inputs", "programs"], "all argument and return values for every type form and position in the corpus bridge",
  "the test suite calls each fixture function with one fixed set of values and checks few of the ownership effects",
  ["macro/src/expand.rs", "src/rust_*.rs"], [("expand_cxx_function_shim", "macro/src/expand.rs"), ("expand_cxx_function_decl", "macro/src/expand.rs")], ["generated bridge module"])
p("R08", "A Rust function called from C++ receives and returns exactly the given values",
  "For every supported signature, the entry point generated for a Rust function invokes it exactly once with the values C++ supplied, in the same positions and with ownership of by-value arguments taken over exactly once, and hands back exactly its return value or, for a fallible function, its success value or error. Boxes, vectors and opaque Rust values created, cloned, inspected, reserved, truncated or dropped from C++ behave as the corresponding Rust operation on that very object.",
  ["inputs", "programs"], "all argument and return values for every type form and position in the corpus bridge",
  "the test suite calls each fixture function from C++ once with fixed values",
  ["macro/src/expand.rs"], [("expand_rust_function_shim_impl", "macro/src/expand.rs"), ("expand_rust_box, expand_rust_vec", "macro/src/expand.rs")], ["exported extern \"C\" entry points"])
p("R09", "Derived traits on shared structs and enums behave like the standard derives",
  "For every value, the traits derived for a shared struct agree with the field-by-field semantics of the standard library derives in declaration order: equality, ordering and partial ordering (with inequality, less, and so on their consistent variants), hashing, cloning, copying, defaulting and debug formatting; for a shared enum they agree with its numeric value, for every bit pattern including those no variant names. The comparison and hash operators exported to C++ for a shared struct return exactly what the Rust implementation returns for the same operands.",
  ["inputs", "programs"], "all field values of the corpus structs and enums",
  "tests compare a few equal and unequal pairs",
  ["macro/src/derive.rs", "macro/src/expand.rs"], [("struct_partial_ord, struct_partial_eq, struct_clone, ...", "macro/src/derive.rs"), ("expand_struct_operators", "macro/src/expand.rs")], ["trait impls on shared types"])
json_path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
# ---- C++ runtime ---------------------------------------------------------------------------------------------
p("C01", "rust::String in C++ owns one Rust String and always holds its text",
  "For every input text and length, each way of building, copying, moving, assigning, swapping and destroying a Rust string from C++ forwards exactly the given bytes to Rust, never leaves two owners or none for one allocation, and leaves a moved-from string valid and empty. Invalid UTF-8 or UTF-16 input raises an exception without leaving a live or destroyed-twice object, and size, data, iteration and comparison (by unsigned bytes, shorter prefixes first) report exactly the Rust string's own bytes.",
  ["inputs"], "all pointers and lengths; contents up to a small bound where bytes are compared",
  "tests build a few ASCII strings and never count constructions against destructions",
  ["src/cxx.cc", "include/cxx.h"], [("rust::String members", "src/cxx.cc")], ["rust::String API"])
p("C02", "rust::Str in C++ views exactly the given text",
  "For every text pointer and length, a Rust str built in C++ from a string, character pointer or length denotes exactly those bytes after the UTF-8 check and raises an exception otherwise; its data, size, iteration, swap, copy and conversion to a C++ string report exactly those bytes. Equality and ordering are the lexicographic order of unsigned bytes with shorter prefixes first, consistently across all six operators.",
  ["inputs"], "all pointers and lengths; comparison of contents up to a small bound",
  "tests compare a handful of literals", ["src/cxx.cc", "include/cxx.h"], [("rust::Str members", "src/cxx.cc")], ["rust::Str API"])
p("C03", "rust::Slice in C++ addresses exactly its elements",
  "For every base address, length and in-range position, a slice's data, length, indexing, front, back and iterators address exactly base plus position times element size; the iterators satisfy the random-access laws (advance, difference, comparison, subscripting) and begin-to-end covers each element once. Checked access raises an exception exactly for out-of-range positions, and an empty slice never hands Rust a null pointer.",
  ["inputs"], "all base addresses, lengths and offsets",
  "tests iterate over one or two short slices", ["include/cxx.h", "src/cxx.cc"], [("rust::Slice and its iterator", "include/cxx.h")], ["rust::Slice API"])
p("C04", "rust::Vec in C++ behaves as the Rust vector it holds",
  "For every vector size and position, size, emptiness, data, indexing, front, back and iterators in C++ address exactly the Rust vector's elements, checked access raises an exception exactly for out-of-range positions, and pushing or emplacing reserves room, constructs one element past the old end from the given arguments (which lie outside the vector), and then extends the length by one. Copying pushes a copy of every element in order, also when a copy throws nothing is lost or dropped twice, moving leaves the source valid and empty, and clear, truncate, reserve, swap and destruction forward to Rust exactly once.",
  ["inputs"], "all sizes and positions; copying of vectors up to a small bound",
  "tests use a few short vectors of scalars", ["include/cxx.h", "src/cxx.cc"], [("rust::Vec members", "include/cxx.h")], ["rust::Vec API"])
p("C05", "rust::Box in C++ owns its Rust value exactly once",
  "Every way of creating, copying, moving, assigning, releasing, adopting, swapping and destroying a Rust box from C++ leaves each Rust allocation with exactly one owner and dropped exactly once, with copies allocated and constructed from the pointee and moved-from boxes owning nothing. If constructing the pointee throws, the fresh allocation is returned without being dropped.",
  ["inputs"], "all box states and values; pointee constructors that return or throw",
  "tests never count allocations against drops or throw from a pointee constructor", ["include/cxx.h"], [("rust::Box members, allocation guard", "include/cxx.h")], ["rust::Box API"])
p("C06", "rust::Error in C++ owns its message and exceptions become results",
  "An error thrown for a failed Rust call carries exactly the message Rust produced, copies of it own an equal independent copy of the text, moved-from errors are empty, and each message buffer is freed exactly once. A C++ exception raised in a function called from Rust is reported as a failure carrying exactly its message, and a normal return as success, with nothing escaping.",
  ["inputs"], "all messages (bounded length for contents) and error states",
  "tests throw one fixed error and never count buffers", ["src/cxx.cc", "include/cxx.h"], [("rust::Error members, errorsFromResult, trycatch", "src/cxx.cc, gen/src/builtin.rs")], ["rust::Error API"])
p("C07", "The C++ runtime entry points called by Rust do exactly what they name",
  "For every argument, each entry point the C++ runtime exports to Rust for strings, vectors, unique, shared and weak pointers performs exactly the standard library operation it stands for on exactly the object it is given, with the same result and no other effect. In particular a string is initialised with exactly the given bytes, vector size, element address, push and pop refer to the right element, and pointer initialisation, access, release and destruction transfer exactly one ownership.",
  ["inputs"], "all arguments, lengths, capacities and reference counts; destruction of string vectors up to 2 elements",
  "tests reach each shim with one fixed value or not at all", ["src/cxx.cc"], [("extern \"C\" functions and instantiation macros", "src/cxx.cc")], ["cxxbridge1$cxx_string$*, std$vector$*, std$unique_ptr$*, shared_ptr$*, weak_ptr$*"])
p("C08", "Generated C++ code passes every value through unchanged",
  "For every supported signature, the C++ code generated for a bridge calls the target function exactly once with every argument in its position, unchanged and owned exactly once, and returns exactly its result; a failure reported by Rust becomes an exception before the result is used and an exception thrown by C++ becomes a reported failure. Smart pointer and vector helpers generated for bridge types act on exactly the given object.",
  ["inputs", "programs"], "all argument and return values for every type form in the corpus bridge",
  "the test suite runs each generated function with one fixed set of values", ["gen/src/write.rs"], [("write_cxx_function_shim, write_rust_function_shim_impl", "gen/src/write.rs")], ["C++ output of the generator"])
# ---- generator -----------------------------------------------------------------------------------------------
p("G01", "Enum discriminants are numbered as Rust numbers them",
  "For every shared enum, an explicit discriminant keeps its written value and an implicit one is its predecessor's plus one (zero for the first), the chosen representation is the one declared or the smallest integer type all values fit, and an enum is rejected exactly when a value does not fit the representation, or an implicit successor does not exist. No declaration makes the generator crash or wrap around.",
  ["inputs", "histories"], "all 64-bit discriminant values, signs and suffixes; sequences of up to a few variants",
  "tests cover a handful of fixed enums", ["syntax/discriminant.rs"], [("DiscriminantSet", "syntax/discriminant.rs")], ["generated discriminants, bridge errors"])
p("G02", "Distinct bridge items never share a linker symbol",
  "For every namespace, type and function name, the linker symbol for each bridge item is deterministic, identical on the Rust and C++ side, contains only identifier characters, and differs between any two items that differ in namespace, receiver type, name or kind. Explicitly renamed items use exactly the given C++ or Rust name.",
  ["inputs", "programs"], "all identifier segments up to the stated length bound",
  "tests link one fixture bridge whose names happen not to collide", ["syntax/mangle.rs", "syntax/symbol.rs"], [("join and escaping", "syntax/symbol.rs")], ["extern symbol names"])
p("G03", "The bridge rejects exactly the types C++ and Rust cannot pass that way",
  "A bridge is rejected whenever it passes or returns an opaque type by value, a mutable reference to an opaque C++ type without pinning, a generic wrapper around an element type that wrapper does not support, or a type that is not declared; uses of supported types in supported positions are accepted.",
  ["inputs", "programs"], "all type trees of bounded depth over all kinds of declared name",
  "the compile-fail tests sample a few dozen fixed bridges", ["syntax/check.rs"], [("check_type*", "syntax/check.rs"), ("is_unsized", "syntax/check.rs")], ["bridge errors"])
p("G04", "By-value use of an extern C++ type is always checked to be trivial",
  "Whenever a bridge uses an extern type by value as a shared struct field, function argument, return value, box or vector element, or slice element, or through a mutable reference that is not pinned, the generator records that the C++ type has to be trivially movable, which is what makes the generated code demand it; it never does so for a type used only by shared or pinned reference, by raw pointer or through an owning C++ pointer, nor for types whose definition is in the bridge.",
  ["inputs", "programs"], "all type trees of bounded depth in every position",
  "tests sample a few alias types", ["syntax/trivial.rs"], [("required_trivial_reasons", "syntax/trivial.rs")], ["static assertions emitted"])
p("G05", "Both languages agree on which values travel by hidden pointer",
  "A value whose representation is not guaranteed to be plain data in both languages is never passed or returned directly but through a hidden pointer, built-in numbers, shared enums, pointers, references, boxes, unique pointers, string slices and slices travel directly, a result travels by hidden pointer also when the function can fail, and the Rust and C++ halves of the generator make the same choice for every function result.",
  ["inputs", "programs"], "all type trees of bounded depth over all kinds of declared name",
  "tests use a few types in a few positions", ["syntax/pod.rs", "syntax/improper.rs", "syntax/types.rs"], [("is_guaranteed_pod, needs_indirect_abi", "syntax/pod.rs, syntax/types.rs")], ["ABI of generated shims"])
p("G06", "Bridge types compare equal exactly when written the same",
  "Two bridge types are treated as the same type if and only if they are built from the same wrappers, names, mutability, lifetimes and signatures; the comparison is reflexive, symmetric and transitive, and equal types always hash equally, so each needed instantiation is emitted once and none is missed.",
  ["inputs"], "all pairs of type trees of bounded depth",
  "tests never compare types directly", ["syntax/impls.rs"], [("PartialEq and Hash for Type, Ref, Ptr, Slice, Array, Ty1, Signature", "syntax/impls.rs")], ["duplicate or missing instantiations"])
p("G07", "Shared structs are emitted after every struct they contain",
  "For every set of shared structs, the C++ definitions are emitted so that each struct comes after every struct it contains by value, directly or in a fixed-size array, each struct is emitted exactly once, and a struct containing itself by value through any chain is rejected. Structs related only through pointers or owning wrappers impose no order.",
  ["inputs", "programs"], "all containment graphs over up to a few structs",
  "tests include one or two nested structs", ["syntax/toposort.rs"], [("sort and visit", "syntax/toposort.rs")], ["order of C++ struct definitions, bridge errors"])
p("G08", "Conditional compilation in a bridge is evaluated as Rust evaluates it",
  "For every configuration expression and every assignment of truth values to its options, an item guarded by all, any, not, a flag or a key-value pair is kept exactly when Rust would keep it, an undetermined option is an error only when the outcome depends on it being looked up, and several attributes on one item must all hold.",
  ["inputs", "configurations"], "all expression trees of bounded depth and width, all assignments",
  "tests evaluate a couple of fixed expressions", ["gen/src/cfg.rs", "syntax/cfg.rs"], [("try_eval", "gen/src/cfg.rs")], ["items present in generated C++"])
p("G09", "Generated namespaces and blocks are balanced and separate",
  "For every sequence of items and blocks the generator emits, each item lands inside exactly its own namespace, every opened block is closed exactly once in reverse order, empty blocks vanish, and no text is lost, duplicated or reordered.",
  ["inputs", "histories"], "all sequences of bounded length over namespace paths of bounded depth",
  "tests compile one fixture output", ["gen/src/nested.rs", "gen/src/out.rs", "gen/src/block.rs"], [("block stack", "gen/src/out.rs"), ("sorting by namespace", "gen/src/nested.rs")], ["generated C++ text"])
p("G10", "Build output paths stay inside the output directory",
  "For every source path, the path of each generated file lies inside the build's output directory whatever absolute prefixes, parent components or links the source path contains, and removing components never climbs above it; distinct sources in one crate yield distinct outputs.",
  ["inputs"], "all component sequences of bounded length",
  "tests build one crate layout", ["gen/build/src/paths.rs", "gen/build/src/out.rs"], [("local_relative_path, relative symlink computation", "gen/build/src/out.rs")], ["files written by the build script"])
p("X01", "C++ exceptions never unwind into Rust",
  "Whatever a C++ function not declared fallible throws, the process terminates inside the generated entry point, before any Rust frame is unwound and whatever the arguments, receiver and return type are.",
  ["inputs", "fault_sequences"], "every throw point and every signature form", "a test process cannot survive the termination it would have to observe",
  ["gen/src/write.rs"], [("noexcept on generated functions", "gen/src/write.rs")], ["process termination"])
p("X02", "Shared and weak pointers count references atomically across threads",
  "When shared or weak pointers to one object are cloned, dropped and upgraded concurrently on several threads, the object is destroyed exactly once, after the last strong reference goes.",
  ["schedules"], "all interleavings", "the tests are single-threaded", ["src/shared_ptr.rs", "src/cxx.cc"], [("std::shared_ptr control block", "C++ standard library")], ["use counts"])
p("X03", "Generated files are rewritten only when their content changes",
  "Running the generator twice on unchanged input leaves the output files untouched, and a crash while writing never leaves a half-written file in place of a complete one.",
  ["crash_points", "histories"], "all crash points and prior directory states", "tests run a build once in a clean directory",
  ["gen/build/src/out.rs", "gen/cmd/src/output.rs"], [("content comparison before write", "gen/build/src/out.rs")], ["files on disk"])
if __name__ == "__main__":
    json_path.write_text("".join(json.dumps(x) + "\n" for x in P))
    print(len(P))
