ENGINE = ("Static analysis of monomorphised MIR: interprocedural dataflow over gated value numbering (joins merged, loops summarised, "
          "nothing executed, no path enumeration, no solver). ")
TRUST = ("Trusted: rustc's MIR, the hand-written transfer functions for std/binrw primitives, stream positions below 2^48. A construct the "
         "analysis cannot model is listed as undecided in the evidence and not reported.")

prop("C01", "Readers and writers agree on the byte layout of every type",
     "For every type of every supported format and every value of it, parsing the bytes that the writer produced yields exactly the value that was written. "
     "This covers field order, widths, padding, null pointers, tags, counts and the file header, for each format version.",
     ["inputs"], "every value of every on-disk type, and every position in the file it may be written at",
     "The tests round-trip a few small files; most record types, enum variants, array lengths and pointer placements never occur in them.",
     ["ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/enums.rs", "ssbh_lib/src/strings.rs", "ssbh_lib/src/vectors.rs", "ssbh_lib/src/formats", "ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs"],
     [{"name": "derived and hand-written writers", "where": "SsbhWrite implementations"}, {"name": "derived and hand-written readers", "where": "BinRead implementations"}],
     "summary-based dataflow: reader summary evaluated on writer summary, compared by value numbering",
     ENGINE + "Each type's reader is evaluated on the symbolic memory its writer leaves, per combination of the decisions that positions depend on; nested types are used by contract and checked on their own. " + TRUST)

prop("C02", "The declared size of a value is the number of bytes it is written as",
     "For every on-disk type and value, the size it declares is exactly the number of bytes writing it advances by. "
     "Array strides, pointer targets and the first free position behind a record are computed from it.",
     ["inputs"], "every value of every on-disk type",
     "The tests check the declared size of a handful of sample structs; a wrong size for one variant or an empty value corrupts neighbouring data only in particular files.",
     ["ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs", "ssbh_lib/src/lib.rs", "ssbh_lib/src/strings.rs", "ssbh_lib/src/arrays.rs"],
     [{"name": "size_in_bytes", "where": "SsbhWrite implementations"}],
     "summary-based dataflow: writer advance and declared size compared by value numbering",
     ENGINE + "The two expressions are equal diagrams over the same decisions. " + TRUST)

prop("C03", "Written records, arrays and strings never overlap and are aligned",
     "Everything the writer places behind an offset starts after the record that points to it, after all data already placed, and at a multiple of its alignment, so no two regions of an output file overlap. "
     "Empty collections store a null offset.",
     ["inputs"], "every value of every on-disk type at every starting position and data pointer",
     "Overlap needs particular nestings and lengths (an empty string in front of an array, a nested pointer); the tests write few such combinations.",
     ["ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/enums.rs", "ssbh_lib/src/formats/meshex.rs", "ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs"],
     [{"name": "data pointer discipline", "where": "SsbhWrite implementations, write_rel_ptr_aligned_specialized, write_array_header"}],
     "assume-guarantee position analysis with symbolic lower bounds over writer summaries",
     ENGINE + "Order facts between positions are derived from syntactic lower bounds (data pointers never move back, round-up, loop-carried minima). " + TRUST)

prop("C04", "The byte layout of each supported version is the established one",
     "For every supported format version, the bytes a value is written as (field order, offsets, widths, enum discriminants, union tags, array alignments, magic, version) and read from are those of the established file layout, so existing game files keep their meaning.",
     ["inputs"], "every on-disk type in every enum variant and format version",
     "A change applied to the reader and the writer together still round-trips; the tests pin the bytes of few types and no complete game file is part of the repository.",
     ["ssbh_lib/src/formats", "ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/enums.rs", "ssbh_lib/src/vectors.rs"],
     [{"name": "record definitions", "where": "ssbh_lib/src/formats/*.rs"}, {"name": "file header", "where": "write_ssbh_header and Versioned readers"}],
     "layout image of every type computed from writer summaries, compared with a reference table",
     ENGINE + "The writer summary of each type and variant is flattened into (offset, width, kind, field) rows, enum discriminants, tags, alignments and header constants, and compared with sa/ref/layout.json; renamed types and fields are followed. " + TRUST)

prop("C05", "Parsing any bytes and writing any value never panics",
     "Reading any byte sequence as any supported format, and writing any value of a supported format, either succeeds or returns an error; it never panics (arithmetic overflow, out-of-range index, unwrap of an absent value, explicit panic).",
     ["inputs"], "every byte sequence and every in-memory value of every on-disk type",
     "A malformed offset, count or tag triggers a panic only for particular values; the tests contain a few malformed inputs for arrays and pointers.",
     ["ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/enums.rs", "ssbh_lib/src/strings.rs", "ssbh_lib/src/formats", "ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs"],
     [{"name": "readers and writers", "where": "BinRead and SsbhWrite implementations"}, {"name": "file entry points", "where": "read/write of each format"}],
     "panic obligations discharged by interval and order analysis over reader and writer summaries",
     ENGINE + "Each possible panic is an obligation under its path condition; an obligation survives only if some combination of decisions that reaches it is not contradictory. " + TRUST)

prop("C06", "Converting between files and editable data never panics",
     "Converting any parsed file to its editable data type, and any editable data to its file type, either succeeds or returns an error; it never panics, whatever indices, offsets, counts and lengths the input holds.",
     ["inputs"], "every value of every file type and every editable data type",
     "Conversions index buffers with offsets and strides taken from the file; the tests use consistent files plus a few broken ones.",
     ["ssbh_data/src"],
     [{"name": "conversions", "where": "TryFrom/From implementations of ssbh_data"}],
     "panic obligations discharged modularly by interval and order analysis over function summaries",
     ENGINE + "Functions free of panics for all arguments are established bottom-up and cut at their boundary; obligations are relative to callers. " + TRUST)

prop("C07", "A failure inside reading, writing or converting reaches the caller",
     "Whenever a step of reading, writing or converting a file fails (I/O error, invalid data, a failing nested conversion), the operation as a whole returns an error. "
     "No failure is dropped, replaced by a default value or turned into success.",
     ["inputs", "fault_sequences"], "every fallible call in both libraries, every error it may return",
     "Error paths run only when a particular nested step fails (a full disk, a truncated record inside an array); the tests check a few invalid inputs and no I/O errors.",
     ["ssbh_lib/src", "ssbh_data/src", "ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs"],
     [{"name": "fallible calls", "where": "every function returning or consuming a Result"}],
     "flow analysis of fallible outcomes over compiler IR (each Result must reach the return value or be inspected)",
     "Every outcome of type Result produced in a function reachable from a public entry point is followed through the MIR: it must be returned, propagated, or branched on with the error "
     "arm reaching an error return. Error types used as tests (UTF-8, integer range) are exempt. " + TRUST)

prop("C08", "Files are identified by their magic; typed readers reject other formats",
     "Only files starting with HBSS are accepted; each documented four-byte magic selects exactly its own format and no other magic is accepted. "
     "A typed reader (for meshes, skeletons, ...) returns the payload when the file is of its format and an error when it is of any other.",
     ["inputs"], "every first bytes of a file and every typed reader",
     "The tests read no complete file of most formats and never hand a file of one format to the reader of another.",
     ["ssbh_lib/src/lib.rs"],
     [{"name": "file header and format union", "where": "SsbhFile, Ssbh"}, {"name": "typed readers", "where": "ssbh_read_write_impl and read/from_file of each format"}],
     "decision diagrams over the bytes read, from summaries of the readers, compared with the documented magics",
     ENGINE + "The acceptance condition of the header reader, the union reader and every typed reader is a decision diagram over input bytes; its leaves are compared with the table of magics. " + TRUST)

prop("C09", "Format versions are told apart, preserved and unsupported ones rejected",
     "For every format, exactly the supported (major, minor) versions are accepted and each selects its own layout; the version written is the version of the value; "
     "converting to editable data keeps the version, and converting back yields that version or, for versions that cannot be written, an error "
     "(formats with a single version whose conversion cannot fail always produce that version).",
     ["inputs"], "every pair of version numbers of every format and every version of editable data",
     "The tests read and write one version of most formats; an unsupported or swapped version shows only for that pair of numbers.",
     ["ssbh_lib/src/lib.rs", "ssbh_lib/src/formats", "ssbh_data/src"],
     [{"name": "version dispatch", "where": "Versioned, generated major/minor readers and writers"}, {"name": "version of editable data", "where": "TryFrom/From conversions of ssbh_data"}],
     "decision diagrams over the version numbers, from summaries of readers, writers and conversions",
     ENGINE + "Acceptance of each version pair, the version numbers handed on and those produced by conversions are decision diagrams over the version numbers, compared with the supported versions. " + TRUST)

RT = ("The summary of the conversion to the file type, for a symbolic value, is handed to the conversion back; the result equals the original value field by field, for a symbolic "
      "index in every list, in a normal form of concatenations and comprehensions. A difference is reported only where the two expressions differ for a sample value substituted into them; "
      "the analysed program is not run. ")


def roundtrip(id, title, statement, text, why, files, mech):
    prop(id, title, statement, ["inputs"], text, why, files, mech,
         "composition of function summaries: conversion back evaluated on the summary of the conversion, compared by value numbering",
         ENGINE + RT + TRUST)


roundtrip("C10", "Helper bone and model data survive conversion to a file and back",
          "For every HlpbData and ModlData of a supported version, converting to the file type and back succeeds and returns the same data: every constraint and entry, in order, "
          "with all its fields, and every name (names without NUL characters). The helper bone file lists one index and type per constraint, aim constraints first.",
          "every helper bone and model assignment value",
          "The tests convert single small values; a field lost for long lists, empty strings or absent optional names does not show.",
          ["ssbh_data/src/hlpb_data.rs", "ssbh_data/src/modl_data.rs"],
          [{"name": "From<&HlpbData>/From<&Hlpb>", "where": "ssbh_data/src/hlpb_data.rs"}, {"name": "From<&ModlData>/From<&Modl>", "where": "ssbh_data/src/modl_data.rs"}])
roundtrip("C11", "Material data survives conversion to a file and back",
          "For every MatlData of the supported version 1.6, converting to the file type and back succeeds and returns the same data: every material, in order, "
          "with every parameter of every kind, its identifier and all its values (names without NUL characters), whatever mixture of parameter kinds a material has.",
          "every material value with any number of parameters of each kind",
          "Unit tests convert one parameter of each kind; mixtures, repeated parameters and every sampler, blend and rasterizer setting are beyond them.",
          ["ssbh_data/src/matl_data.rs"],
          [{"name": "TryFrom<&MatlData>/TryFrom<&Matl>", "where": "ssbh_data/src/matl_data.rs"}])
roundtrip("C12", "Skeleton data survives conversion to a file and back",
          "For every SkelData of version 1.0 without parent cycles and with bone numbers that fit the file, converting to the file type and back succeeds and returns the same bones in the same "
          "order, with name, transform, parent and billboard type. The file has one entry and one matrix of each kind per bone, numbered in order.",
          "every acyclic skeleton",
          "The tests convert skeletons of two or three bones; order, parents at the ends of the range and every billboard type are not covered.",
          ["ssbh_data/src/skel_data.rs"],
          [{"name": "TryFrom<&SkelData>/From<&Skel>", "where": "ssbh_data/src/skel_data.rs"}])
roundtrip("C13", "Extended mesh data survives conversion to a file and back",
          "For every MeshExData, converting to the file type and back returns the same groups in the same order with bounding sphere, names and every entry's flags (names without NUL characters), "
          "including groups without entries and groups of the same name. The file has one entry per flag, pointing at the group it belongs to.",
          "every extended mesh value with any number of groups and entries",
          "The tests convert one or two groups; empty groups, equal names and group numbers beyond one byte need specific values.",
          ["ssbh_data/src/meshex_data.rs"],
          [{"name": "From<&MeshExData>/From<&MeshEx>", "where": "ssbh_data/src/meshex_data.rs"}])
roundtrip("C14", "Adjacency data survives conversion to a file and back",
          "For every AdjData whose buffer sizes fit the file, converting to the file type and back succeeds and returns the same entries with the same mesh object index and adjacency list, including empty lists. "
          "The offsets in the file are the cumulative byte sizes of the lists.",
          "every adjacency value with any number of lists of any length",
          "The tests convert two short lists; empty lists, long lists and single entries behave differently in the offset arithmetic.",
          ["ssbh_data/src/adj_data.rs"],
          [{"name": "TryFrom<&AdjData>/TryFrom<&Adj>", "where": "ssbh_data/src/adj_data.rs"}])
prop("C15", "Conversions put every value in its established place",
     "Each conversion between editable data and the file type (helper bones, models, materials of both versions, skeletons, extended meshes, adjacency) maps every field to its established counterpart and sets every "
     "other field of the result to its established value: no field is dropped, swapped, defaulted or altered, for any value and version, in either direction.",
     ["inputs"], "every value of the file types and of editable data, for every version",
     "A consistent change in both directions passes every round trip; the tests compare complete values for a few samples and never convert material files of version 1.5.",
     ["ssbh_data/src/hlpb_data.rs", "ssbh_data/src/modl_data.rs", "ssbh_data/src/matl_data.rs", "ssbh_data/src/skel_data.rs", "ssbh_data/src/meshex_data.rs", "ssbh_data/src/adj_data.rs"],
     [{"name": "From/TryFrom conversions", "where": "ssbh_data/src"}],
     "equality of function summaries with a stored mapping, by value numbering",
     ENGINE + "Each conversion is summarised as an expression of a symbolic input for every field of its result and compared with the established mapping in sa/ref/conversions.json. " + TRUST)

prop("C23", "Saving to a path writes the whole file last, or leaves it untouched",
     "Each function that saves to a path converts and serialises the whole value before the file at that path is created or changed; if any of those steps fails the existing file is left as it was. "
     "On success the file holds exactly the serialised bytes, and success is reported only if the file was written.",
     ["fault_sequences", "crash_points"], "every failing conversion or serialisation step of every saving function",
     "A failure in the middle of saving needs a value that passes early steps and fails later ones; the tests never save over an existing file with an invalid value.",
     ["ssbh_lib/src/lib.rs", "ssbh_lib/src/formats", "ssbh_data/src/lib.rs", "ssbh_data/src"],
     [{"name": "write_buffered", "where": "ssbh_lib/src/lib.rs"}, {"name": "write_to_file", "where": "each format and SsbhData implementation"}],
     "effect analysis over function summaries: ordering of fallible steps and file effects with their conditions",
     ENGINE + "File effects and fallible steps of every saving function are events with conditions; the file may be touched only where all fallible steps have succeeded and none follows. " + TRUST)

prop("C33", "Path, stream and data entry points of a format behave alike",
     "For each format, reading from a path equals reading the stream of that file, saving to a path stores exactly the bytes that writing to a stream produces, "
     "and the editable-data functions equal the file functions composed with the conversion.",
     ["inputs"], "every value and every input of every format's public reading and writing functions",
     "The tests use the stream functions; the file functions of most formats are never called.",
     ["ssbh_lib/src/lib.rs", "ssbh_lib/src/formats", "ssbh_data/src"],
     [{"name": "read/from_file/write/write_to_file", "where": "ssbh_lib formats and SsbhData implementations"}],
     "equality of function summaries (values, effects and conditions) of sibling entry points",
     ENGINE + "The summaries of sibling functions are compared: same conversion, same bytes, same results under the same conditions. " + TRUST)

prop("C17", "Mesh conversions place vertex data by the file's own offsets",
     "For mesh versions 1.8, 1.9 and 1.10, every attribute value, vertex index, name and skin weight of the editable data is the value stored in the file at the attribute's buffer, offset, stride and type, "
     "and a mesh made from editable data has every value, stride, offset, size and flag where the established layout puts it, the bytes of all vertex buffers and of the index buffer included.",
     ["inputs"], "every mesh: any number of objects, attributes of every usage and type, vertices, indices of both widths, influences",
     "Files with several objects, several attributes per usage, half floats or bytes, long indices or unusual offsets are not in the tests; wrong strides or offsets show only there.",
     ["ssbh_data/src/mesh_data.rs", "ssbh_data/src/mesh_data/mesh_attributes.rs", "ssbh_data/src/mesh_data/vector_data.rs"],
     [{"name": "file to data", "where": "read_mesh_objects_inner, read_attribute_data, VectorData::read, read_rigging_data"},
      {"name": "data to file", "where": "create_mesh_objects, create_attributes_v8/v9/v10, write_attributes, create_rigging_buffers"}],
     "summary comparison by value numbering; stored bytes as a canonical tree of write events",
     ENGINE + "Each conversion is summarised with the version fixed; the result, and the tree of writes into each in-memory buffer (position, type, value, loops, conditions), must equal the established ones "
     "in sa/ref/mesh.json. A difference is reported only when instantiating both expressions with a sample mesh confirms it; otherwise it is undecided. Accuracy of bounding volumes is outside. " + TRUST)

prop("C18", "Animation tracks are decoded and encoded as the format lays down",
     "For animation versions 2.0 and 2.1 and every type of track: a direct or constant track read from a file has the frame values stored there; a compressed one has, frame by frame, the values decoded from the bit stream "
     "(order of components, bit counts, minimum and maximum, defaults, uniform scale, sign of w). A track made from frame values has the established way of storage, header, defaults, ranges, bit stream, offset and size, "
     "and the header of the file the established values; names, flags, groups and nodes keep their place in both directions.",
     ["inputs"], "every animation: any groups, nodes, tracks of all six types, frames, bit counts and header flags (compressed transforms: 24 bits per component)",
     "Decoding depends on flags, bit counts and equal ranges in combinations the sample tracks do not have; an error in one component or at one number of frames passes them.",
     ["ssbh_data/src/anim_data.rs", "ssbh_data/src/anim_data/buffers.rs", "ssbh_data/src/anim_data/compression.rs", "ssbh_data/src/anim_data/bitutils.rs"],
     [{"name": "file to data", "where": "read_anim_groups, read_track_values, CompressedData::decompress, BitReader"},
      {"name": "data to file", "where": "create_anim, TrackValues::write, create_compressed_buffer, CompressedData::compress, BitWriter"}],
     "summary comparison by value numbering, partially evaluated by track type and storage; bit vectors as sequences",
     ENGINE + "Each conversion is summarised with version, track type and way of storage fixed. Frame values are expressions of the track's bytes and bit ranges, written buffers are expressions of the frame values; they must equal "
     "those in sa/ref/anim.json. A difference is reported only when instantiating both expressions with a sample animation confirms it; otherwise it is undecided. Version 1.2 is outside. " + TRUST)

prop("C20", "Mesh conversions reject exactly the meshes they cannot represent",
     "Making a mesh file from data fails when the number of indices of an object is not a multiple of three, an index names a vertex that is not there, the attributes of an object differ in length, two objects share name and subindex, "
     "a vertex has more influences than the file can say, or (version 1.10) a weight belongs to a vertex beyond 65535; it succeeds for everything else. Reading mesh data from a file fails when an attribute names a buffer that is not there or an offset "
     "is out of range, a stride is too small, or a bone has no name; it succeeds for everything else whose values lie inside the buffers.",
     ["inputs"], "every mesh of versions 1.8, 1.9 and 1.10, well formed or not",
     "Tests sample one malformed mesh per error, mostly with a single object; a check weakened for some objects, indices or versions, or one that rejects valid meshes, passes them.",
     ["ssbh_data/src/mesh_data.rs"],
     [{"name": "data to file", "where": "create_mesh_object, MeshObjectData::vertex_count, validate_mesh_object_subindices, create_vertex_weights_v10"},
      {"name": "file to data", "where": "calculate_offset_stride, read_attribute_data, read_influences, VectorData::read"}],
     "summary comparison by value numbering: conditions of success, with loops that end early as conditions on all rounds",
     ENGINE + "The condition under which each conversion succeeds is derived as an expression of the input (no outcome of a loop is left in it) and must equal the established one in sa/ref/accept.json. A difference is reported only when "
     "evaluating both conditions for a sample mesh, malformed ones among them, tells them apart; otherwise it is undecided. Reads inside a buffer are assumed to succeed (C07). " + TRUST)

prop("C22", "Results depend on nothing but the arguments",
     "Reading the same bytes always gives the same value, and converting or writing the same value always gives the same result and the same bytes: in every run, on every thread, in any order of calls. "
     "No result depends on the iteration order of a randomly seeded hash table, the clock, the environment, threads, addresses or state left behind by an earlier call.",
     ["histories", "schedules", "inputs"], "every function of the libraries, every order of calls, every seed of the hash tables",
     "Hash seeds differ from run to run and small tables often come out in the expected order; the tests call each function once in a fresh process.",
     ["ssbh_lib/src", "ssbh_data/src", "ssbh_write/src/lib.rs"],
     [{"name": "hash tables", "where": "ssbh_data/src/mesh_data.rs (validation, influence counts), ssbh_data/src/skel_data.rs (visited bones)"}],
     "effect analysis over compiler IR: sources of nondeterminism and flow of hash table iterators",
     "Every call of every function of the libraries is compared with the sources of nondeterminism, statics and thread locals are listed, and every iterator over a hash table is followed to its consumer, "
     "which must not depend on the order. Consumers whose order-independence is not established are undecided. Trusted: dependencies are deterministic.")

prop("C25", "Every operation ends",
     "Reading any bytes, converting or writing any value, and computing bone transforms of any skeleton (with parents that form cycles included) ends: no loop runs forever and no recursion is unbounded.",
     ["inputs"], "every loop and every call cycle of the libraries",
     "A loop that does not end needs a cyclic bone hierarchy, a stream without a terminator or an unreadable element; a test that hit it would hang rather than fail.",
     ["ssbh_data/src/skel_data.rs", "ssbh_lib/src/strings.rs", "ssbh_lib/src/arrays.rs", "ssbh_data/src/mesh_data.rs", "ssbh_data/src/anim_data"],
     [{"name": "cycle detection", "where": "SkelData::calculate_world_transform"}, {"name": "terminated strings", "where": "CString reader"}, {"name": "loops", "where": "every natural loop in the MIR"}],
     "termination measures of natural loops over compiler IR (iterator, stream, visited set, counter), call graph cycles",
     "Every natural loop needs a measure: a finite iterator created outside whose exhaustion leaves it in every round, a read whose failure leaves it, a set of visited elements whose repetition leaves it, "
     "or a counter tested at its exit. Loops with a candidate that cannot be confirmed are undecided. Trusted: iterators of the standard library over finite collections are finite, streams end.")

prop("C26", "The libraries contain no unsafe code and no shared mutable state",
     "No value, file or sequence of calls can cause undefined behaviour or a data race through the libraries: they consist of safe code only and keep no mutable state shared between calls or threads.",
     ["programs", "schedules", "inputs"], "every function, implementation and static of the libraries",
     "Undefined behaviour and races may show nothing at all in a test run.",
     ["ssbh_lib/src", "ssbh_data/src", "ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs"],
     [{"name": "all code", "where": "typed syntax trees of the three libraries, generated code included"}],
     "query over the compiler's typed syntax trees (unsafe blocks, functions, implementations, foreign items, statics)",
     "Generated code is included except what the compiler itself expands for formatting and its own derives. Trusted: dependencies and the standard library.")

prop("C27", "The libraries affect nothing but the streams and files they are given",
     "Reading, writing and converting print nothing, start nothing, and change nothing but the given stream or the file at the given path: no other file is created, removed or renamed, "
     "nothing is written to the terminal, and process, environment, hooks and network are left alone.",
     ["inputs", "programs"], "every call in every function of the libraries",
     "Tests do not observe what is printed, and a stray effect on an unusual input (a debug message for one track type) is never executed.",
     ["ssbh_lib/src", "ssbh_data/src", "ssbh_write/src/lib.rs"],
     [{"name": "file access", "where": "from_file and write_to_file functions, write_buffered"}],
     "effect analysis over compiler IR (calls of every function compared with operations that have effects)",
     "All functions are covered, reachable or not. Which path the remaining file operations use, and in which order, is decided by C23 and C33.")

prop("C31", "Numbers that do not fit a field are rejected, never truncated",
     "Writing and converting never change a number by cutting it to the width or sign of the field it goes into: counts, indices, offsets, parents and influence counts that do not fit are reported as an error or stored in a wider form. "
     "Reading never cuts a number either.",
     ["inputs"], "every integer cast in every reader, writer and conversion, for every value that can reach it (collections in memory below 2^32 elements)",
     "Truncation needs more than 255, 32767 or 65535 elements or an index beyond them; the tests use a handful.",
     ["ssbh_data/src", "ssbh_lib/src", "ssbh_write/src/lib.rs"],
     [{"name": "integer casts", "where": "all `as` casts between integer types"}, {"name": "checked conversions", "where": "Ptr::ssbh_write, create_vertex_weights, create_skel, create_adj"}],
     "cast obligations discharged by interval and order analysis over function summaries",
     ENGINE + "Each cast to a narrower or differently signed integer type is an obligation under the conditions that reach it. Casts to 32 bits of totals of buffer sizes are undecided. " + TRUST)

na("C16", "Bounding volumes of written meshes contain every vertex",
   "The bounding sphere, box and oriented box stored for every mesh object, and for the whole mesh, contain all of its vertex positions.",
   ["inputs"], "every set of vertex positions",
   "Containment depends on rounding of sums, square roots and maxima over all vertices; tests use a few points.",
   ["ssbh_data/src/mesh_data.rs", "ssbh_data/src/meshex_data.rs"],
   [{"name": "bounding volumes", "where": "calculate_bounding_info and the geometry_tools crate"}],
   "Containment is a statement about the rounding of floating-point sums and square roots over a runtime number of vertices, computed in a dependency (geometry_tools); no sound static bound is in reach.")

na("C34", "Bone world transforms are the products along the chain of parents",
   "The world transform of a bone is the product of the transforms of its ancestors and itself, and the stored inverse transforms are inverses of it up to rounding.",
   ["inputs"], "every acyclic skeleton",
   "Floating-point products and inverses of 4x4 matrices over a runtime depth.",
   ["ssbh_data/src/skel_data.rs"],
   [{"name": "world transforms", "where": "SkelData::calculate_world_transform, inv_transform"}],
   "The equation holds only up to rounding of matrix products and inverses computed in a dependency (glam); error bounds over runtime depth are out of reach. That the computation ends is C25, that bones keep their parents C12.")

na("C35", "Compressed animation values stay within the quantisation step",
   "Every value of a compressed track differs from the value it was made from by at most one quantisation step of the bit width chosen for it.",
   ["inputs"], "every list of track values",
   "The error depends on rounding of min, max and ratios of runtime values.",
   ["ssbh_data/src/anim_data/compression.rs"],
   [{"name": "quantisation", "where": "F32Compression, BitReadWrite implementations"}],
   "A floating-point error bound over runtime minima and maxima; the abstract domain has no numeric error terms.")
