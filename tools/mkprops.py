#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that edits stay reviewable)."""
import json, os
S = "src/hdf5storage/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "state": [dict(zip(("name", "meaning", "where"), x)) for x in state],
                    "mechanism": [dict(zip(("name", "where"), x)) for x in mechanism],
                    "observe_at": list(observe), "hook_needed": hook}})


prop("P01", "Round trip: what is written with Python metadata is what is read back",
     "Any value of a supported type, nested to any depth, written with Python metadata stored under any combination of options and read back with the same options (or others that agree in `reverse_dimension_order`, `complex_names`, `group_for_references` and `structs_as_dicts`) equals the original in type, dtype, shape, element values (NaN, infinities, signed zeros, every code point and trailing nulls of Python strings included), order and key types. Documented exceptions only: byte order, and the dtypes of the fields of a structured array that is stored as a Group (string widths, object fields whose elements all share one dtype, field dtypes of empty arrays) or of which only the shape is stored, whose elements must still be equal. Values with more text keys or fields than an HDF5 attribute can name (about 4000) are refused with OSError.",
     ["inputs", "configurations"], "every supported value (scalars, strings, arrays of every layout, containers, nested) crossed with every combination of writing options",
     "The tests sample random values of each type under four fixed option sets and compare with lenient assertions; they never cross hostile strings, names, layouts and nesting with arbitrary option combinations.",
     ["Marshallers.py", "utilities.py", "__init__.py", "pathesc.py"],
     [("per type marshallers write/read pairs", "Marshallers.py"), ("write_data/read_data dispatch", "utilities.py LowLevelFile"), ("Python.* attributes", "Marshallers.py write_metadata")],
     ["hdf5storage.write/read, File.write/read", "value before writing vs. value read"])

prop("P02", "References always resolve to their own live object in the references group",
     "After any history of writes, overwrites and deletes and at every close, every object reference stored in the file resolves to a live object directly inside the references group, no two elements written by the library share an object except the canonical empty, and the canonical empty (the name `a` in the references group, which belongs to the library) keeps its documented content. No operation changes or removes an object that another stored object still refers to.",
     ["histories", "inputs", "configurations"], "every sequence of sessions, writes, overwrites, deletes and root writes of values with nested object content",
     "Tests write one object array to a fresh file and only look at the value read back; the reference graph itself and its survival across later operations are never inspected.",
     ["utilities.py", "Marshallers.py", "__init__.py"],
     [("write_object_array, next_unused_ref_group_name", "utilities.py"), ("delete_unused_variables loops", "Marshallers.py")],
     ["raw h5py walk of the closed file"],
     [("references group", "the HDF5 Group that holds elements of object arrays", "utilities.py LowLevelFile")])

prop("P03", "Non-MATLAB on-disk layout and Python attributes follow the storage format",
     "For every supported value and every combination of storage options outside MATLAB mode, the Datasets, Groups, shapes, element types and Python attributes in the file are exactly those the storage format documentation prescribes for that value and those options, so that an independent decoder that knows only the documentation recovers the value. No attribute other than the prescribed ones is present.",
     ["inputs", "configurations"], "every supported value crossed with every combination of the individual transformation options",
     "Tests check attributes for one sampled value per type under fixed option sets; a writer and a reader that are wrong in the same way pass every round trip test.",
     ["Marshallers.py", "utilities.py"],
     [("write / write_metadata of each marshaller", "Marshallers.py"), ("string and complex encoding", "utilities.py")],
     ["raw h5py view of the closed file"])

prop("P04", "MATLAB-mode files follow the MAT v7.3 layout the documentation prescribes",
     "Every file written in MATLAB mode starts with a 512 byte userblock holding the documented 128 byte header, and every object has the documented MATLAB class, decode, empty, field-name and H5PATH attributes, reversed at-least-2D dimensions, UTF-16 characters, uint8 logicals, real/imag complex fields, stored shape for empties, and cell or struct layout. Values MATLAB cannot represent are rejected, discarded or stored according to the chosen action, and discarded elements of containers become the canonical empty.",
     ["inputs", "configurations"], "every supported value in MATLAB mode, with and without Python metadata, with each action for incompatible types",
     "MATLAB itself is not available to the tests, which only look at a few attributes of a sampled value per type and never at the header bytes, dimension order and reference layout together.",
     ["__init__.py", "Marshallers.py", "utilities.py"],
     [("header writing", "__init__.py File.__init__"), ("MATLAB_* attributes", "Marshallers.py write_metadata"), ("canonical empty", "utilities.py write_object_array")],
     ["raw bytes and raw h5py view of the closed file"])

prop("P05", "Reading without Python metadata gives the documented approximation",
     "Data without Python metadata, whether written by this package, by MATLAB or by another HDF5 writer, is read as the documented closest Numpy value: reversed dimensions exactly when the data has MATLAB attributes, char as str, cell as object array, struct as structured array or dict, logical as bool, complex pairs as complex, and MATLAB empties with their stored shape. The value read depends only on the file and the options.",
     ["inputs", "configurations"], "every value written without Python metadata, and every MATLAB-like or plain HDF5 layout assembled directly with h5py",
     "Tests have a handful of fixed MATLAB files and compare a few variables; arbitrary shapes, strings, nesting, attribute combinations and foreign layouts are not covered.",
     ["Marshallers.py", "utilities.py"],
     [("matlab_class branch of read", "Marshallers.py NumpyScalarArrayMarshaller.read"), ("decode_complex, convert_to_numpy_str", "utilities.py"), ("marshaller choice when reading", "utilities.py read_data")],
     ["files assembled with raw h5py, value read"])

prop("P06", "Overwriting leaves no trace of what was there before",
     "After any sequence of writes to one path, with any values and any options, whatever was there before (things of other HDF5 writers included), what is read from it and the Datasets (their HDF5 types, shapes, values and filters), Groups and attributes found there are the same as if only the last write had been made to an empty file. The one exception is that fields of earlier Groups stay when unused variables are not to be deleted.",
     ["histories", "inputs", "configurations"], "every history of writes of any values with any options to the same path, in one or several sessions",
     "Tests overwrite a value in only a few type pairs, and never compare the full on-disk state with a fresh write; the number of pairs of (old value, old options, new value, new options) is far beyond sampling by hand.",
     ["Marshallers.py", "utilities.py"],
     [("in place overwrite or delete and create", "Marshallers.py NumpyScalarArrayMarshaller.write"), ("attribute replacement and discarding", "utilities.py set_attributes_all"), ("delete_unused_variables", "Marshallers.py")],
     ["raw h5py dump of the path after the history vs. after a fresh write"])

prop("P07", "A write or delete changes only its own path",
     "Writing or deleting one path leaves every other path of the file, including everything other objects refer to, exactly as it was in content, attributes and storage filters, apart from adding missing parent Groups and new entries in the references group. Opening a file for writing changes nothing but the MATLAB header, and filters and contents of everything else stay.",
     ["histories", "inputs"], "every file state and every single write, delete or open applied to it",
     "Tests look only at the path they just wrote, mostly in a file that holds nothing else.",
     ["__init__.py", "Marshallers.py", "utilities.py"],
     [("writes, __delitem__, open modes", "__init__.py File"), ("field deletion and overwrite", "Marshallers.py")],
     ["raw h5py dump of all other paths before and after"])

prop("P08", "Reading and read-only handles never change the file",
     "No read, listing, length, membership or other query, successful or failing, changes a single byte of the file or the later results of other reads. A File opened read-only or already closed rejects every modification with OSError and leaves the file as it was, and closed Files reject every access.",
     ["inputs", "histories"], "every sequence of queries on every kind of content, valid or not, and every modifying call on read-only or closed Files",
     "Tests read files but never compare bytes before and after, and hardly exercise read-only or closed handles.",
     ["__init__.py", "utilities.py"],
     [("writable flag and closed checks", "__init__.py File"), ("lazy creation of the references group", "utilities.py")],
     ["file bytes, h5py write calls during reads"])

prop("P09", "File behaves as a MutableMapping over the root of the file",
     "At every point of any history, iteration, length, membership, item access, get, pop, popitem, setdefault, update, clear, keys, values, items and equality of an open File agree with a dict from the root's names to the values last written. The references group never shows up as an item, wherever its name sorts.",
     ["histories", "configurations"], "every sequence of mapping operations with any names, any values and any location of the references group",
     "Tests use a few fixed mapping calls with one set of names, not histories compared with a model.",
     ["__init__.py"],
     [("__len__, __contains__, __iter__, __getitem__, __setitem__, __delitem__", "__init__.py File")],
     ["results of the mapping methods vs. a dict model"])

prop("P10", "The references group cannot be reached through user paths",
     "No read, write, delete or membership test through any spelling of a path (relative, absolute, repeated slashes, dots, bytes, path objects, components) can reach the references group or anything in it, reads and writes of such paths raise ValueError, and values read from a Group that contains it never include it. Writing to the root or to Groups that hold it never removes or replaces it, while every path outside of it stays usable.",
     ["inputs", "configurations", "histories"], "every spelling of every path inside and outside every configured references group, and writes to the Groups above it",
     "Tests try a handful of literal paths with the default group name.",
     ["__init__.py", "pathesc.py", "utilities.py", "Marshallers.py"],
     [("commonpath checks", "__init__.py writes/reads"), ("exclusion of the group on read", "Marshallers.py"), ("protection on root writes", "utilities.py write_data")],
     ["outcome of each call and raw dump of the references group"])

prop("P11", "Path escaping is a bijection and never creates path structure",
     "Escaping any text gives text without slashes, nulls or leading periods, unescaping it gives back the original, and so different names never collide in the file. All ways to give a path (str, bytes, pure paths, iterables of components, relative or absolute) lead to the same object exactly when they denote the same sequence of names, and paths of invalid type are rejected with TypeError.",
     ["inputs"], "every string of code points, every sequence of names, every supported path type",
     "Tests draw a few random names with few of the characters that matter, and never check injectivity or equality between the path forms in a real file.",
     ["pathesc.py", "__init__.py"],
     [("escape_path, unescape_path, process_path", "pathesc.py")],
     ["pathesc functions, object names in the file"])

prop("P12", "Options always hold a consistent, valid combination",
     "After any sequence of constructing, setting and copying, an Options object holds only valid values, invalid ones are ignored without other effect, being MATLAB compatible implies every option value MATLAB needs, and changing any of those to another value ends MATLAB compatibility. A File or a write works with its own copy, so later changes do not affect it.",
     ["histories", "inputs"], "every sequence of assignments of valid and invalid values to every option",
     "Tests set each option once from the default state; interactions over sequences of assignments are not explored.",
     ["__init__.py"],
     [("property setters", "__init__.py Options")],
     ["option values after each assignment vs. a table model"])

prop("P13", "Marshallers are selected by the documented priority rules",
     "For every collection of builtin, plugin and user marshallers in every priority order, the marshaller chosen for a type, a type string or a MATLAB class is the first one in priority order (the groups builtin, plugin and user in the given order, user marshallers in the order they were added, plugins only of the latest requested API version that they and the library support) that declares it, changes through adding, removing or clearing user marshallers take effect at once and entirely, and a type whose module is not available is read approximately rather than failing. Types nobody declares are never written and are rejected.",
     ["inputs", "configurations", "histories"], "every set of marshallers, declared types, module availability and priority, and every history of changes to the collection",
     "Tests check a few handmade marshallers; combinations of overlapping declarations, priorities and histories are not covered.",
     ["__init__.py", "plugins.py", "Marshallers.py"],
     [("MarshallerCollection", "__init__.py"), ("find_thirdparty_marshaller_plugins", "plugins.py")],
     ["which marshaller's write/read runs, results of the lookup methods"])

prop("P14", "Compression, filters and checksums follow the options and protect the data",
     "Every Dataset that is written has exactly the compression algorithm, level, shuffle and Fletcher32 filters that the options prescribe for its size, in place overwrites included, and no filter choice changes a value. When checksums are on, any corruption of stored data is never returned as data: reading raises, except that elements of a Group that cannot be read may be left out of the value.",
     ["configurations", "inputs", "fault_sequences"], "every combination of filter options and data sizes around the threshold, and every corrupted byte of the stored chunks",
     "Tests check filters for one large array per option; thresholds, strings, containers' parts, overwrites and actual corruption are not tested.",
     ["Marshallers.py", "__init__.py"],
     [("filters dict and recreate condition", "Marshallers.py NumpyScalarArrayMarshaller.write")],
     ["Dataset creation properties, reads of corrupted files"])

prop("P15", "Concurrent use of one File or of the module functions is linearizable",
     "Operations issued by any number of threads on one File, under any scheduling, have the results and final file content of some sequential order of them that respects real time, and never deadlock or crash. Threads using separate Files, Options or collections, or looking up in one collection with lazily loaded marshallers, get what they would get alone.",
     ["schedules"], "every interleaving of the operations of several threads",
     "Tests contain no concurrency beyond one simple case, and cannot reach particular interleavings.",
     ["__init__.py", "utilities.py"],
     [("File._lock, MarshallerCollection lock, default collection lock", "__init__.py")],
     ["recorded invoke/response histories, final file"],
     [("lock", "serializes operations on a File", "__init__.py File")])

prop("P16", "Batch, single, mapping and module-level calls are equivalent",
     "Writing or reading many paths in one call, one call per path, through mapping syntax, or through the module-level functions with any accepted way to give options, gives the same results and the same file content, with results in the order of the paths asked for. If any path of a batch write is invalid, nothing at all is written.",
     ["inputs", "configurations"], "every batch of paths and values, every calling style and every way to pass the options",
     "Tests exercise each entry point on its own with few paths, and do not compare the entry points with each other.",
     ["__init__.py"],
     [("writes, reads, write, read, File methods", "__init__.py")],
     ["results and raw dumps after each calling style"])

prop("P17", "Failed operations are reported and leave the rest of the file intact",
     "When a value, path, file or option cannot be used, or the HDF5 layer fails at any point of an operation, the call raises the documented kind of exception instead of silently succeeding, everything outside of the path being written stays readable and unchanged, the File can be used further and the file can be opened again. A read of which the requested object cannot be read raises rather than returning something else; only elements of a Group that cannot be read by themselves may be left out.",
     ["fault_sequences", "inputs"], "every operation with an unsupported element at any position, and with a failure injected at any of its calls into the HDF5 library",
     "Tests have no fault injection, and only check that some unsupported types raise.",
     ["utilities.py", "Marshallers.py", "__init__.py"],
     [("exceptions and error paths of write_data/read_data", "utilities.py"), ("File context management", "__init__.py")],
     ["injected h5py failures, outcome, dump of the other paths"])

prop("P18", "Files from untrusted sources cannot run code or have side effects",
     "Reading any file, with any attributes, type strings, dtype strings, names and contents, never evaluates code from it, never unpickles, imports only what a registered marshaller declares, starts no process and opens or changes no other file (apart from those that HDF5's own external links name); unless links or references go round in circles it ends with a value or an ordinary exception. Text in attributes is treated as data.",
     ["inputs"], "every file content, mutations of valid files and hostile attribute values included",
     "Tests only read well formed files.",
     ["Marshallers.py", "utilities.py", "__init__.py"],
     [("literal evaluation of dtype strings", "Marshallers.py NumpyDtypeMarshaller.read"), ("type string lookup", "__init__.py MarshallerCollection"), ("no pickling", "doc/source/storage_format.rst")],
     ["interpreter audit events, tripwires, file hashes"])

prop("P19", "Writing never modifies the caller's objects",
     "Writing any value under any options, whether it succeeds or fails, leaves the value, everything nested in it, its array flags, views and buffers, and the mappings and options passed in exactly as they were. Values read are fresh: they share no memory with each other, with the file or with what was written, and changing one has no effect on later reads or writes.",
     ["inputs", "configurations"], "every value (views, read-only and non contiguous arrays included) and every option combination",
     "Tests compare the value read with the input after writing, so an input that was changed by writing can go unnoticed.",
     ["Marshallers.py", "utilities.py", "__init__.py"],
     [("conversions that copy instead of working in place", "Marshallers.py write"), ("byteswaps, views and reshapes", "utilities.py")],
     ["deep snapshots before and after, memory overlap checks"])

prop("P20", "String, complex and dtype conversions are exact and reversible",
     "For every value in their domain the public conversion functions between str, bytes, Numpy strings and their UTF-8/16/32 integer arrays, between complex and paired fields, and between dtypes and their text are lossless inverses for every shape, string length and byte order, and agree with Python's own codecs. Input outside the domain raises the documented error or is returned as is, and is never silently altered.",
     ["inputs"], "every string, array shape, string length, byte order, field naming and dtype",
     "Tests draw random ASCII or letters only, in native byte order and small fixed shapes.",
     ["utilities.py"],
     [("convert_* functions, encode_complex, decode_complex, convert_dtype_to_str", "utilities.py")],
     ["function results vs. reference implementations"])

prop("P21", "savemat and loadmat match their documented SciPy-like semantics",
     "For every mapping of variable names and values and every combination of arguments, saving then loading gives the documented MATLAB view of the values with names, orientation, extension handling (file names are str), truncation or appending, selection of variables (missing ones are left out, and ones that cannot be read raise), updating of a given dict and struct conversion as documented. Invalid arguments raise the documented errors and leave existing files untouched.",
     ["inputs", "configurations"], "every dict of variables and every combination of the arguments",
     "Tests call both with a few arguments on fixed data and skip comparisons with SciPy when it is not installed.",
     ["__init__.py"],
     [("savemat, loadmat", "__init__.py")],
     ["files and dicts produced"])

prop("P22", "Opening, truncating, flushing and closing keep exactly the promised data",
     "Opening a file truncates it only when asked to, or when asked to drop files whose userblock is unfit for MATLAB (too small for a header) while being MATLAB compatible, and otherwise keeps all content; it is created only when allowed to; what was written before a completed flush or close survives the process being killed at any later point, before the next change. Files are closed on every exit path, even when an operation raised.",
     ["crash_points", "histories", "configurations"], "every combination of open flags and existing files, and a kill at every point after a flush or close",
     "Tests never kill the process, and check few combinations of the open flags.",
     ["__init__.py"],
     [("open modes, userblock, flush, close, __exit__, __del__", "__init__.py File")],
     ["files left behind by killed processes, open file descriptors"])

prop("P23", "Documented attributes and helper routines keep their contracts on any target",
     "Setting attributes in bulk (`set_attributes_all`) leaves exactly the requested attributes with the requested values and kinds, keeping others only when asked, whatever was there before; reading them (`read_all_attributes_into`) puts every attribute with its exact value into the given mapping, whose other items stay. Conversion of attributes to strings or lists of strings accepts every kind of string and gives None for everything else.",
     ["inputs", "histories"], "every prior set of attributes of any type and shape, and every requested set",
     "Tests never start from attributes of conflicting type or shape.",
     ["utilities.py"],
     [("set_attributes_all, read_all_attributes_into, convert_attribute_to_string(_array)", "utilities.py")],
     ["raw h5py view of the attributes"])

prop("P24", "What is read does not depend on how the file encodes the same content",
     "The same HDF5 content is read as the same value however it is encoded: text attributes as fixed or variable length strings in ASCII or UTF-8, integer attributes of any width and byte order, Datasets of either byte order (byte order of the result aside), contiguous, chunked, compact, compressed or extendable, objects copied, moved, renamed or repacked, a references Group of another name, other userblock sizes and HDF5 format versions. A value reached through hard, soft or external links is the one read directly, including everything its references refer to.",
     ["inputs", "configurations"], "every readable value, written by this package or laid out as by MATLAB, crossed with every encoding of each of its objects and attributes",
     "The tests only read files as this package and one h5py version just wrote them; other writers, h5repack, h5copy and MATLAB choose other encodings.",
     ["Marshallers.py", "utilities.py", "__init__.py"],
     [("attribute conversion", "utilities.py convert_attribute_to_string, read_all_attributes_into"), ("read of Datasets, Groups and references", "Marshallers.py, utilities.py read_data, read_object_array")],
     ["values read from the original and from the rewritten file"])

prop("P25", "Marshallers of others work like the builtin ones, to the documented contract",
     "A marshaller written to the documented interface is called exactly once for every object of its types that is written and for every object with its type string that is read, at any depth of any container, with the open file, the options in effect and all Attributes (None for missing ones). What it builds with the builtin marshallers, `write_data`, `read_data`, `write_object_array`, `read_object_array`, `next_unused_ref_group_name` and `write_metadata` round trips, has the content the same data has in builtin types apart from the type string, and exactly the Attributes asked for. Returning None leaves just that object out, exceptions are passed on (members of Groups that cannot be read are left out), missing modules lead to the approximate reader, and nothing given to the helpers is changed.",
     ["inputs", "configurations", "histories"], "every marshaller keeping the contract, crossed with every nesting in containers and every combination of options",
     "The tests only have one plugin that subclasses list, written once at the top level.",
     ["Marshallers.py", "utilities.py"],
     [("TypeMarshaller interface", "Marshallers.py"), ("LowLevelFile", "utilities.py")],
     ["calls of the marshallers", "values read", "raw file contents"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
