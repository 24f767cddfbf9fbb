#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One P(...) per property.
import json, os
out = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

P("C01", "Marshalling round-trips every value and all sinks agree",
  "For every marshallable type and every value of it, dumping the value and loading the bytes into another initialised value of the same type (whatever that value held before) reproduces the value exactly, and re-dumping gives the same bytes up to padding. All output sinks (byte vector, stream, file descriptor, C file, bounded buffer, user stream) produce the same bytes, the announced dump size equals the number of bytes produced, a bounded buffer that is too small is never overrun and yields 0, and a failing sink is reported. All input sources accept those bytes and produce the same value.",
  ["inputs"], "all types built from numerics, enums, arrays, compounds with padding, strings and nested vectors; all values; all previous contents of the destination; all buffer sizes",
  "test_value.cc marshals about ten fixed structures with fixed contents into fresh destinations; it never varies shapes, previous contents, nesting of containers in arrays, or buffer sizes.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("ValueOps::dump / ValueOps::load", "typelib/value_ops.cc"), ("MemLayout::Visitor, MemoryLayout::simplify", "typelib/memory_layout.cc"), ("Vector::dump/load, String::dump/load", "lang/csupport/containers.cc")])
P("C02", "Marshalled byte format is the documented one",
  "The bytes produced for a value are, in field order, the in-memory bytes of plain data, with each container written as a 64-bit element count followed by its elements; padding at the end of the value is dropped, padding inside it keeps its place. The default rule does not depend on how the type was built, and types containing pointers or opaques are refused instead of being written.",
  ["inputs"], "all marshallable types and values, compared with an independent reference encoder; all types containing a pointer or opaque anywhere",
  "The tests compare a handful of hand-computed buffers; the format has to hold for each combination of padding, nesting, arrays of containers and containers of padded structures.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("ValueOps::dump", "typelib/value_ops.cc"), ("MemLayout::Visitor::visit_(Compound)", "typelib/memory_layout.cc"), ("MemoryLayout::simplify", "typelib/memory_layout.cc")])
P("C03", "Loading untrusted bytes is rejected cleanly or accepted, never corrupts",
  "Loading any byte sequence into an initialised value of any marshallable type either succeeds or fails with an exception, without reading or writing outside the supplied buffers. Whatever the outcome, the destination stays a valid value: it can be read, re-loaded, compared and destroyed without leak. A proper prefix of a valid dump, or a valid dump followed by bytes that are not trailing padding, is always rejected.",
  ["inputs"], "all byte sequences: truncations, extensions, bit flips, huge element counts, random bytes; all destination types",
  "Tests check two wrong buffer sizes on flat structures; corrupted element counts and truncation inside nested containers are never tried.",
  ["typelib/value_ops.cc", "lang/csupport/containers.cc"],
  [("VectorInputStream::read, ByteArrayInputStream::read bounds checks", "typelib/value_ops.cc"), ("Vector::load, Vector::resize", "lang/csupport/containers.cc")])
P("C04", "Copy makes a deep, independent, equal value",
  "Copying a value into another initialised value of the same type makes the destination equal to the source whatever the destination held, leaves the source unchanged, and leaves the two independent: modifying or destroying one never changes the other. No memory is leaked or freed twice by any sequence of copies, including copying a value onto itself.",
  ["inputs", "histories"], "all types without opaques and pointers and all pairs of values; sequences of copy, mutate, destroy",
  "test_value.cc copies a few fixed structs; aliasing between nested containers, shrinking and growing destinations and self-copies are not exercised.",
  ["typelib/value_ops.cc", "lang/csupport/containers.cc"],
  [("Typelib::copy / ValueOps::copy", "typelib/value_ops.cc"), ("Vector::copy, String::copy", "lang/csupport/containers.cc")])
P("C05", "Value comparison is exact equality, ignoring padding only",
  "Comparing two values of a type returns true exactly when every numeric, enum, pointer, array element, field and container element is identical; bytes that are padding never influence the result. Comparison is reflexive and symmetric, changing any single leaf or any container length makes it false, and neither operand is modified. Two values whose types differ but are cast-compatible are compared by contents, and incompatible types are never reported equal.",
  ["inputs"], "all types without opaques, all pairs of values, all padding contents, all single-leaf mutations",
  "Tests compare a few fixed pairs; a comparison that ignores one field behind some padding or inside an array of containers passes them.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("Typelib::compare / ValueOps::compare", "typelib/value_ops.cc"), ("MemLayout::Visitor", "typelib/memory_layout.cc"), ("Vector::compare", "lang/csupport/containers.cc")])
P("C06", "Init, zero and destroy lifecycles are complete, in-bounds and leak-free",
  "Initialising raw memory for any type makes a valid value in which every container is empty and every enum holds a declared value, touching nothing outside the type's size; zeroing a valid value makes every numeric zero and every container empty; destroying a value releases everything it owns exactly once. Any sequence of these operations with loads, copies and element pushes leaves no leaked and no doubly freed memory.",
  ["inputs", "histories"], "all types without opaques and pointers, all byte patterns in the raw memory, all sequences of lifecycle operations",
  "Tests initialise and destroy two fixed structures and do not look for leaks or out-of-bounds writes.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("Typelib::init/zero/destroy", "typelib/value_ops.cc"), ("MemoryLayout init ops and simplifyInit", "typelib/memory_layout.cc"), ("Vector::resize", "lang/csupport/containers.cc")])
P("C07", "Containers behave as the native vector and string they describe",
  "A container value manipulated through the type system always has the contents a plain sequence would have after the same history of push, set element, get element, erase, conditional delete, clear, copy, compare, dump and load. The storage is at all times a valid native vector or string that native code can read, modify and destroy. Values of another type than the element type are refused.",
  ["histories"], "all operation sequences on vectors of numerics, enums, arrays, padded compounds, strings and nested vectors, and on strings",
  "Tests do a few fixed pushes and one erase/delete_if; the effect depends on capacity, element kind and history.",
  ["lang/csupport/containers.cc", "typelib/typemodel.cc"],
  [("Vector::push/erase/delete_if_impl/resize/setElement", "lang/csupport/containers.cc"), ("String::push/erase/delete_if_impl", "lang/csupport/containers.cc")])
P("C08", "Byte-order swapping swaps exactly every multi-byte leaf",
  "Byte-swapping a value reverses the bytes of each numeric and enum of the value in place and changes nothing else; doing it twice restores the value, and containers are swapped element by element. The precompiled swapper writes, for every type without containers, pointers and opaques (which it refuses), exactly the same data into its output as in-place swapping would, and never outside that output.",
  ["inputs"], "all types of numerics, enums, arrays, padded and nested compounds, opaques (untouched); containers for the in-place form; all values",
  "test_endian swaps two fixed structures; nested padding, arrays of padded structures and 8-byte fields after 2-byte ones depend on the shape.",
  ["typelib/endianness.cc", "typelib/endianness.hh", "typelib/endian_swap.hh"],
  [("EndianSwapVisitor", "typelib/endianness.hh"), ("CompileEndianSwapVisitor::visit_/swap", "typelib/endianness.cc"), ("endian_swap", "typelib/endian_swap.hh")])
P("C09", "CSV header and lines describe every leaf, in order and in step",
  "For any type made of numerics, enums, arrays, compounds, pointers and opaques, the CSV header has one column per leaf named by its access path, and a CSV line has exactly as many columns as the header, each carrying the text of that leaf's value in the same order, or NULL where it lies behind a null pointer. The chosen separator, prefix and character-as-number option are honoured.",
  ["inputs"], "all such types, values, separators and prefixes",
  "test_display checks two fixed structures.",
  ["typelib/csvoutput.cc", "typelib/csvoutput.hh"],
  [("HeaderVisitor, LineVisitor", "typelib/csvoutput.cc")])
P("C10", "Typed navigation reaches exactly the declared storage",
  "Looking up a field by name yields the declared field type at the declared offset, or fails for an unknown name; casting a value to a C type succeeds exactly when the value is a numeric of that size and kind and then yields the stored number. Visiting a value presents each leaf once, in declaration order, with its exact address, type and contents, and stops when the visitor asks to (a stop asked for inside a container is a recorded finding).",
  ["inputs"], "all types and values, all field names, all C arithmetic types",
  "Tests navigate three fixed structures.",
  ["typelib/value.hh", "typelib/value.cc", "typelib/value_cast.hh", "typelib/normalized_numerics.hh", "typelib/typevisitor.cc"],
  [("ValueVisitor::dispatch", "typelib/value.cc"), ("FieldGetter", "typelib/value.hh"), ("CastingVisitor", "typelib/value_cast.hh"), ("TypeVisitor", "typelib/typevisitor.cc")])
P("C11", "Memory layouts cover each byte once and simplification preserves meaning",
  "For every type whose fields do not overlap, in whatever order they are declared, the layout describes each byte of the type exactly once, in order, as data, padding, array or container, with all data bytes marked as data whatever the options. Merging and trailing-padding removal change only how padding bytes are treated, so that any layout option combination dumps and reloads the same value and keeps the same data bytes. Pointers and opaques are refused unless accepted by the caller, at any nesting depth.",
  ["inputs", "configurations"], "all types; all combinations of the four layout options",
  "test_memory_layout compares a dozen fixed op sequences.",
  ["typelib/memory_layout.cc", "typelib/memory_layout.hh"],
  [("MemLayout::Visitor", "typelib/memory_layout.cc"), ("MemoryLayout::simplify/simplifyArray/simplifyInit", "typelib/memory_layout.cc")])
P("C12", "The registry is a faithful name-to-type map under any history",
  "After any history of additions, aliases, alias removals, namespace selections and imports, looking up a name returns exactly the type registered or aliased under it, resolved through the current namespace, and existence checks, iteration, prefix ranges, alias sets, source identifiers and counts all agree with that map. Duplicate or invalid names are refused and leave the registry unchanged. Types named in the map are never invalidated by these operations.",
  ["histories"], "all sequences of registry operations over names in nested namespaces, including derived array/pointer names",
  "test_registry runs about five fixed scripts.",
  ["typelib/registry.cc", "typelib/registry.hh", "typelib/registryiterator.hh"],
  [("Registry::add/alias/get/has/find/removeAlias/clearAliases", "typelib/registry.cc"), ("updateCurrentNameMap / importNamespace", "typelib/registry.cc")],
  state=[("m_global, m_current", "absolute and namespace-relative name maps", "typelib/registry.hh")])
P("C13", "Removing a type removes exactly the type and what depends on it",
  "The types depending on a type are exactly those that reach it through fields, array or pointer indirections and container elements, transitively. Removing a type takes exactly these and all names of these out of the registry, hands each of them once to the caller, and leaves every other name, type and alias untouched and usable.",
  ["histories"], "all registries with shared and recursive dependencies and aliases; all removal sequences",
  "One fixed removal is tested.",
  ["typelib/registry.cc", "typelib/typemodel.cc"],
  [("Registry::remove, reverseDepends", "typelib/registry.cc"), ("Type::dependsOn", "typelib/typemodel.cc")])
P("C14", "Merging registries is a union that keeps definitions and detects conflicts",
  "Merging a registry into another leaves the target with every name of both, each with its original definition, aliases and source identifiers included, sharing no object with the source, and referencing only its own types. Merging is idempotent and does not modify the source; merging equal definitions adds nothing, and a name defined differently on the two sides raises a definition mismatch.",
  ["inputs"], "all pairs of registries: disjoint, overlapping, equal, conflicting, with recursive types, aliases and containers",
  "Tests merge a couple of fixed registries.",
  ["typelib/registry.cc", "typelib/typemodel.cc"],
  [("Registry::merge", "typelib/registry.cc"), ("Type::merge, try_merge, do_merge", "typelib/typemodel.cc")])
P("C15", "A minimal registry is closed, faithful and nothing more",
  "The minimal registry for a type contains that type and every type it transitively needs with unchanged definitions, and nothing else but (if requested) the aliases of these types. The minimal registry relative to an auto-generated one contains exactly what is not in the latter (nor an array or pointer of a type of it) and what that needs. Neither modifies its operands.",
  ["inputs"], "all registries, type names, subsets and alias options",
  "Tests extract one or two fixed minimal registries.",
  ["typelib/registry.cc"],
  [("Registry::minimal (both overloads)", "typelib/registry.cc")])
P("C16", "Resizing types propagates consistently to everything built on them",
  "After growing a set of types, each named type has its new size, every array is its dimension times its element size, the fields of every compound (also of one that is given a new size itself) keep their order in memory without overlap and with the gaps that separated them, pointers keep their size, and types that depend on no resized type are unchanged. The registry can then be used as if it had been built with those sizes. An unknown name is refused without any change.",
  ["inputs"], "all registries, recursive ones included, and all maps of new (larger) sizes for numerics, opaques and compounds, by name or alias",
  "test_registry resizes one compound, one array.",
  ["typelib/typemodel.cc", "typelib/registry.cc"],
  [("Registry::resize", "typelib/registry.cc"), ("Type::resize, Compound/Array/Indirect::do_resize", "typelib/typemodel.cc")])
P("C17", "Type and registry equality is structural and sees every difference",
  "Two independently built types are the same exactly when their sizes, categories and complete recursive structure (field names, order, offsets and types, dimensions, enum symbols, container kinds, names of opaque and null types) match, the names of other types aside; any single difference makes them differ, in both directions of the question. Casting compatibility is implied by sameness and, outside of arrays and containers, also tolerates different trailing padding of compounds and missing enum symbols. Two registries are the same exactly when they hold the same names with the same definitions.",
  ["inputs"], "all pairs of type graphs, equal or differing by one mutation anywhere, including recursive ones",
  "Tests compare a few fixed pairs.",
  ["typelib/typemodel.cc", "typelib/registry.cc"],
  [("Type::isSame/canCastTo/rec_compare/do_compare", "typelib/typemodel.cc"), ("Registry::isSame", "typelib/registry.cc")])
P("C18", "Type-name functions validate, split and recompose consistently",
  "For every valid absolute type name, namespace and basename recompose to the name, its tokens rejoin to it, and relative-name and namespace-membership queries agree with the component sequence, treating template arguments, arrays and pointers as part of one component. The minimal path from a namespace leads to the type and is not ambiguous. Name validation accepts all well-formed names, refuses names with invalid characters, empty components or unbalanced or malformed templates and dimensions, and terminates without crashing for any string. The name ordering used by registries is a strict total order.",
  ["inputs"], "all strings, and all names generated from the grammar of namespaces, templates, arrays and pointers",
  "Tests validate a dozen names.",
  ["typelib/typename.cc", "typelib/typename.hh"],
  [("isValidTypename, splitTypename, getNamespace, getTypename, getRelativeName, isInNamespace, getMinimalPathTo, nameSort", "typelib/typename.cc")])
P("C19", "Derived types are built once, from any spelling, with the right shape",
  "Building a type from a name made of a known base followed by array and pointer suffixes, or a container from its kind and element, yields a type of that name whose structure and size follow from the base type; asking again, in whatever spelling, returns the same type. Spelling an element through an alias yields the type of the aliased element, and unknown or malformed names are refused without adding anything.",
  ["inputs"], "all well-formed and malformed derived names over registries with aliases",
  "Tests build four fixed names.",
  ["typelib/typebuilder.cc", "typelib/registry.cc"],
  [("TypeBuilder::build/parse", "typelib/typebuilder.cc"), ("Registry::build", "typelib/registry.cc")])
P("C20", "Saving a registry as TLB and loading it back is lossless",
  "Exporting a registry without recursive types to the XML format and importing it into an empty registry gives back every persistent name and every type these need, with the same definitions (fields listed by offset), aliases, source identifiers and metadata of types and fields. Exporting that again gives the same entries, and names or metadata containing characters special to XML survive. Importing into a registry that already holds some of the types leaves these as they are.",
  ["inputs"], "all registries with numerics, enums, compounds (recursive), arrays, pointers, opaques, containers, aliases, metadata",
  "test_lang_tlb round-trips one registry without metadata or special characters.",
  ["lang/tlb/export.cc", "lang/tlb/import.cc", "lang/tlb/parsing.hh", "lang/tlb/xmltools.hh"],
  [("TlbExport", "lang/tlb/export.cc"), ("TlbImport", "lang/tlb/import.cc")])
P("C21", "Malformed type descriptions are rejected cleanly",
  "Importing any text as a type description either succeeds with a consistent registry (every referenced type present, sizes and offsets not negative) or fails with an exception; it never crashes, hangs, leaks or touches memory it does not own, and the registry imported into is still usable and keeps everything it held.",
  ["inputs"], "random text, mutated, truncated and reordered valid documents, missing or bad attributes, dangling and cyclic references, duplicate definitions",
  "Tests load one invalid file.",
  ["lang/tlb/import.cc", "lang/tlb/xmltools.hh", "typelib/importer.cc"],
  [("TlbImport::load", "lang/tlb/import.cc"), ("getAttribute, parse errors", "lang/tlb/xmltools.hh"), ("Importer::load", "typelib/importer.cc")])
P("C22", "IDL export declares every exportable type once, before use, in its module",
  "The IDL text produced for a registry declares each exportable type exactly once, inside modules matching its namespace, after everything it refers to, with modules balanced; compound members appear in order with the IDL equivalent of their type (one-byte integers are octets, floating point types other than four bytes wide are doubles) and enums list each symbol once. Types IDL cannot represent are refused with an exception or left out when asked, never exported wrongly; an exporter can be used any number of times.",
  ["inputs", "configurations"], "all acyclic registries of numerics, enums, compounds, arrays, strings, vectors; export options",
  "test_lang_idl compares two fixed registries with stored files.",
  ["lang/idl/export.cc", "lang/idl/export.hh"],
  [("IDLExport, IDLTypeIdentifierVisitor, IDLExportVisitor", "lang/idl/export.cc")])
P("C23", "Exporters visit each persistent type once, dependencies first",
  "Saving a registry presents to the exporter every persistent type and alias exactly once, each after all the types it directly depends upon and each alias after its target, whatever the order in which they were registered. A registry in which types refer to each other in a cycle is refused with an error instead of looping or dropping types. Saving to a file writes everything or reports an error.",
  ["inputs"], "all dependency graphs and registration orders",
  "Only indirectly exercised with fixed registries.",
  ["typelib/exporter.cc", "typelib/exporter.hh"],
  [("Exporter::save", "typelib/exporter.cc")])
P("C24", "Metadata is a multimap that merges as a union",
  "Metadata attached to a type or field behaves as a map from keys to sets of values under any history of set, add, clear and merge. Merging metadata between types or registries yields the union on both type and field level, removes nothing, and does not touch the source or unrelated types.",
  ["histories"], "all sequences of metadata operations, all pairs of registries",
  "Tests check a few single calls.",
  ["typelib/typemodel.cc", "typelib/registry.cc"],
  [("MetaData", "typelib/typemodel.cc"), ("Type/Compound/Field::mergeMetaData, Registry::mergeMetaData", "typelib/typemodel.cc, typelib/registry.cc")])
P("C25", "Configuration sets behave as nested multi-valued maps",
  "A configuration set returns, for each key, the values and children last given by the history of set, insert and child insertions, converted to the requested type, with the given default when the key is absent; a child knows the parent it was created with, erasing or setting values leaves children alone, and all memory is released with the root.",
  ["histories"], "all sequences of configuration operations with nested children and value types",
  "Tests exercise one fixed configuration.",
  ["typelib/utilmm/configset.cc", "typelib/utilmm/configset.hh"],
  [("config_set::set/insert/get/getChild", "typelib/utilmm/configset.cc")])
P("C26", "Plugin lookup and its singleton lifecycle are consistent",
  "After any history of registering importers, exporters and type plugins, each known language yields a fresh instance of the plugin registered for it and unknown languages are refused; loading and saving through the manager equals using the plugin directly. The shared manager and other singletons, including singletons that hold others and handles taken in several threads, exist exactly while some handle to them exists and are recreated on demand. New registries start with the types of the type plugins; missing, empty or broken entries of the plugin path are skipped.",
  ["histories"], "all sequences of plugin registration, lookup and handle acquisition/release",
  "Only default plugin loading is tested.",
  ["typelib/pluginmanager.cc", "typelib/pluginmanager.hh", "typelib/utilmm/singleton/server.cc"],
  [("PluginManager::add/importer/exporter/load/save", "typelib/pluginmanager.cc"), ("singleton server attach/detach", "typelib/utilmm/singleton/server.cc")])
P("C27", "Standard C types are registered with the compiler's size and kind",
  "Each standard C/C++ name the library defines has the size and signedness the native compiler gives that type, and every synonym refers to the same type, in any registry the standard types are added to; adding them to a registry that already holds some of the names completes it without changing or duplicating those.",
  ["inputs", "histories"], "all standard names, spelling permutations and pre-populated registries",
  "Tests check a few names.",
  ["lang/csupport/standard_types.cc"],
  [("CXX::addStandardTypes", "lang/csupport/standard_types.cc")])
P("C28", "Compounds and enums keep exactly what was declared",
  "A compound lists its fields in the order added with the given names, types and offsets, its size always covers the end of its furthest field unless set larger, and its trailing padding is what follows that end; looking up a field name gives the first field of that name, and normalising only reorders fields by offset. An enum maps names to values as added, refuses redefinition with another value, resolves values back to a declared name, and proposes the successor of the last value.",
  ["histories"], "all sequences of field and symbol additions, duplicates included, and size changes",
  "Tests build a few fixed compounds and enums.",
  ["typelib/typemodel.cc"],
  [("Compound::addField, getField, getTrailingPadding, normalizeFieldOrder", "typelib/typemodel.cc"), ("Enum::add/get/getNextValue", "typelib/typemodel.cc")])
P("C29", "Displays of types, registries and layouts say what they hold",
  "Displaying a type tells its category, name and size, the symbols and values of an enum, the dimension of an array, what a pointer or container is made of, and each field of a compound, in order, with its offset, name and the full display of its type, and displaying it changes nothing. Dumping a registry lists every persistent name, and only those, that passes the source filter (\"*\" for all, \"\" for those without source), in order, as the full display of the type or as an alias of the aliased type's name, with the source if asked for. The display of a memory layout lists its operations and their arguments in order.",
  ["inputs"], "all types, registries with aliases and sources, filters and dump modes",
  "No test looks at the displayed text.",
  ["typelib/typedisplay.cc", "typelib/registry.cc", "typelib/memory_layout.cc", "typelib/value_ops.cc"],
  [("TypeDisplayVisitor", "typelib/typedisplay.cc"), ("Registry::dump", "typelib/registry.cc"), ("MemoryLayout::display", "typelib/memory_layout.cc")])
P("C30", "Values manipulated from Ruby behave like plain data",
  "For types made of numbers, booleans, enums, strings, character arrays, arrays, vectors and compounds, a value built in Ruby from any accepted form (numbers, strings, symbols, hashes, arrays, typelib values) reads back as exactly what was put in it, whichever accessor is used: field methods, get/set, [] and []=, raw_ forms, to_simple_value, to_byte_array, ==, dup, Typelib.copy. This holds after any sequence of reads and writes at any depth, pushes, erasures, clear, from_buffer and zero! included, independently of what has been read or converted before. It is so for the values made by new, create, zero, from_address and wrap, for std::string values and their characters, and for pointers, which are read as what they point to (nil when null, a String for characters) and cannot be assigned. An assignment that cannot be done (unknown field or symbol, wrong class or number of elements, index out of bounds, string that does not fit) raises an exception and changes nothing.",
  ["inputs", "histories"], "all types of these kinds, values, and sequences of reads and writes through the public accessors; raw accesses below a converted field come after applying and dropping the converted object, as the API documents",
  "Tests read and write a few fields of fixed types once, and most of them need castxml, which is not always there.",
  ["bindings/ruby/ext/convert.cc", "bindings/ruby/ext/value.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib/array_type.rb", "bindings/ruby/lib/typelib/pointer_type.rb", "bindings/ruby/lib/typelib/standard_convertions.rb", "bindings/ruby/ext/strings.cc"],
  [("typelib_to_ruby / typelib_from_ruby", "bindings/ruby/ext/convert.cc"), ("compound accessors and CustomConvertionsHandling", "bindings/ruby/lib/typelib/compound_type.rb"), ("container accessors", "bindings/ruby/lib/typelib/container_type.rb")])
P("C31", "Values held from Ruby never reach memory that is gone",
  "Whatever a Ruby program keeps (values, fields, elements, elements of elements, pointers, wrapped strings, views of a value with a type of another registry, types, metadata) and drops, and whenever the garbage collector runs, everything that is kept either gives access to exactly the place of the value it stands for, even when the value it is a part of or the registry of its type are not referred to by anything else, or is invalidated. Only wrappers below a container at or below the place that was written are ever invalidated; wrappers of elements that do not exist any more always are, whichever operation removed them (copy, zero!, from_buffer, erase, delete_if, clear, raw_memcpy, growth of the container). Any use of an invalidated value raises TypeError. Values copied or inserted from parts of the value being modified arrive intact. (Changes made through one view of a value are not reflected in the validity of element wrappers obtained from another view.)",
  ["histories"], "all histories of reads, writes, drops and collections on all values of registries without pointers, changes being made through one view of each value",
  "Tests check a few invalidations after one operation each, and never run the collector at chosen points or under a memory checker.",
  ["bindings/ruby/ext/memory.cc", "bindings/ruby/ext/value.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/ext/metadata.cc", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib/type.rb"],
  [("memory table", "bindings/ruby/ext/memory.cc"), ("handle_invalidation", "bindings/ruby/lib/typelib/type.rb"), ("handle_container_invalidation", "bindings/ruby/lib/typelib/container_type.rb")])
P("C32", "Registries defined, queried and derived from Ruby",
  "Types defined from Ruby in any accepted form (builders with fields or symbols given by method or by add, types given by object, name or alias, offsets and values explicit or deduced) are reflected as defined: class, name, size, numeric category, symbols, fields with types and offsets, dimension, element type, container kind, direct and recursive dependencies, reverse dependencies, aliases. After any sequence of definitions, aliases, alias removals and type removals, a registry enumerates and finds exactly the names that are defined (plus names of pointers, arrays and containers formed from aliases); each type is always represented by the same Ruby class, which stays usable after the type was removed and when the registry is only referred to by it. dup, minimal, merge, add, to_xml / from_xml, import, export (with options in every form) and resize give the union, closure, copy or layout that the definitions require, and leave other registries alone. A request that cannot be done (unknown, malformed or taken names, types of another registry, empty or contradictory enums, conflicting merges, missing or malformed files, unknown formats) raises a Ruby exception, never ends the process, and changes nothing.",
  ["inputs", "histories"], "all definitions of numeric, opaque, null, enum, compound, container, array and pointer types and all sequences of registry operations of the Ruby API",
  "Tests define one type of each kind and never combine definitions, aliases, removals and failing requests.",
  ["bindings/ruby/ext/registry.cc", "bindings/ruby/ext/value.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/lib/typelib/registry.rb", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/compound_type.rb"],
  [("registry_* functions", "bindings/ruby/ext/registry.cc"), ("Registry builders", "bindings/ruby/lib/typelib/registry.rb"), ("type_wrap and reflection", "bindings/ruby/ext/value.cc")])
P("C33", "Ruby values are marshalled, swapped, cast, described and frozen",
  "For every type and value held from Ruby: to_byte_array gives, under each combination of its options, the library's encoding of the current value (changes made through converted fields included) and marshalling_size is its length; from_buffer and wrap with the same options give the value back, over any former content, and refuse buffers that were cut or have more than trailing padding after the value, after which the value can still be used. endian_swap and endian_swap! reverse every number and nothing else, and doing it twice is the identity. to_simple_value and to_json_value describe the value, with packed arrays and special floats as their options say; to_csv gives a header and a line with one column per leaf. A value can be cast to, compared with and copied to a type of the same structure of any registry, whatever its name, and not to another structure. A frozen value and all its parts, whenever they are obtained, refuse every change and can still be read and copied. A request that cannot be done (pointers and opaques where they are not accepted, base classes without a type, incompatible types) raises a Ruby exception and never ends the process.",
  ["inputs", "histories"], "all types of numbers, booleans, enums, strings, character arrays, arrays, vectors, compounds, and pointers and opaques where they are refused; all values, options and cut points; histories of accesses to frozen values",
  "Tests call each method once or twice on fixed structures, and never with changes pending in converted fields, with pointers or on frozen compounds.",
  ["bindings/ruby/ext/value.cc", "bindings/ruby/ext/specialized_types.cc", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/array_type.rb", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib/numeric_type.rb"],
  [("value_do_byte_array, value_do_from_buffer, value_endian_swap, value_do_cast, typelib_do_copy", "bindings/ruby/ext/value.cc"), ("Type#freeze, to_byte_array, from_buffer", "bindings/ruby/lib/typelib/type.rb"), ("to_simple_value", "bindings/ruby/lib/typelib/")])
P("C34", "Specialisations and custom conversions of Ruby types",
  "Methods declared with Typelib.specialize and specialize_model, and conversions declared with Typelib.convert_to_ruby and convert_from_ruby, by type name, by name[] for the arrays of a type, by name<> for a kind of container, by regular expression, and with an :if filter, apply to exactly the matching types of every registry created later (built, loaded from XML, copied or merged); so do the conversions declared on a type class for that type. Values of a converted type are read as the converted object wherever they are: the value itself, a field, an element of an array or vector of a field or of another array or vector (arrays and vectors of converted types being Ruby arrays, unless they have a conversion of their own). They can be set from the converted object as well as from whatever an unconverted value could be set from. Changes made in place to a converted field, or to the elements of a converted array or vector, are changes to the value. raw accessors give the typelib values.",
  ["inputs", "histories"], "all conversions of compound, enum, array and vector types to a mutable Ruby object and back; all types and values that hold them; all keys and filters of declarations",
  "Tests declare one conversion for one compound type, and check the lookup tables instead of the types they apply to.",
  ["bindings/ruby/lib/typelib/specializations.rb", "bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/array_type.rb", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib.rb"],
  [("RubyMappingCustomization", "bindings/ruby/lib/typelib/specializations.rb"), ("Type.subclass_initialize, convert_to_ruby, convert_from_ruby", "bindings/ruby/lib/typelib/type.rb"), ("extend_for_custom_convertions", "bindings/ruby/lib/typelib/")])
P("C35", "Types, values and metadata are found by name and structure from Ruby",
  "Whatever names the namespaces, template arguments and basename of a type have, Type.namespace, basename, full_name and split_typename give exactly these parts, with the asked separator, and splitting the printed form of a C++ template name (Typelib.parse and collect template arguments, template names with empty lists included) gives its arguments again. Registry#export_to_ruby makes each type of the registry, and no other, reachable under its name (plain names, names of types nested in other types, template instances), following the filter it is given, in objects and modules alike; asking for an unknown name raises. Accessor.find_in_type followed by each visits exactly the parts of a value whose type matches the criterion, however deep they are in fields, arrays and containers, and what it gives are these parts, not copies. The metadata of types, fields, and standalone objects is a multimap: add, set, clear, get, each and merges behave as such, and it is carried over by copies, minimal registries, merges and XML as it stands.",
  ["inputs", "histories"], "all names of types with namespaces and template arguments; all registries; all types and values; all histories of metadata changes",
  "Tests check one or two names per function, never a registry with nested names, and one value for accessors.",
  ["bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/registry_export.rb", "bindings/ruby/lib/typelib/accessor.rb", "bindings/ruby/lib/typelib/path.rb", "bindings/ruby/lib/typelib/metadata.rb", "bindings/ruby/lib/typelib/cxx.rb", "bindings/ruby/ext/metadata.cc"],
  [("Type.namespace, basename, full_name", "bindings/ruby/lib/typelib/type.rb"), ("RegistryExport", "bindings/ruby/lib/typelib/registry_export.rb"), ("Accessor", "bindings/ruby/lib/typelib/accessor.rb"), ("MetaData", "bindings/ruby/lib/typelib/metadata.rb")])
P("C36", "C++ headers are imported as the types they declare",
  "The registry imported from the description castxml or gccxml gives of a C++ header has exactly the representable types the header declares: structures with their size and their fields at their offsets, inherited ones included, enumerations with their values, typedefs as aliases, template instances under normalised names, arrays, pointers, std::vector and std::string, opaques as opaques. They have the names, source locations, C++ names, documentation and @meta of their declarations. Declarations that typelib cannot represent (private or virtual members and bases, incomplete types, bit-fields, references, pointers in cycles, enumerations outside of the integers, unknown numbers) are left out, together with what needs them, and never abort the import or change what is imported of the others. The result does not depend on the order of the nodes of the description. GCCXMLLoader.load and Registry#import give the tool the include paths, defines and options asked for, report when it fails, and work for several headers, one after the other or in parallel; so does the clang importer with the tool it calls. C++ names convert to typelib names and back.",
  ["programs", "inputs"], "all headers within the supported subset, all orders of their descriptions, all template type names",
  "Tests compare stored outputs for a few fixed headers and need castxml, so that none of them runs without it.",
  ["bindings/ruby/lib/typelib/gccxml.rb", "bindings/ruby/lib/typelib/clang.rb", "bindings/ruby/lib/typelib/cxx.rb", "bindings/ruby/lib/typelib/registry.rb"],
  [("GCCXMLInfo, GCCXMLLoader", "bindings/ruby/lib/typelib/gccxml.rb"), ("GCCXMLLoader.parse_template, cxx_to_typelib", "bindings/ruby/lib/typelib/gccxml.rb"), ("CXX.load, loader selection", "bindings/ruby/lib/typelib/cxx.rb")])
P("C37", "Types and values describe themselves from Ruby",
  "For every type, Type#memory_layout lists, under any combination of its options, exactly the bytes of data, the padding and the containers the type is made of, in order, and how fresh memory is initialised; it refuses pointers and opaques unless they are accepted. compatible_with_memcpy? holds exactly for the types that one memcpy copies. The text of a type or a value (pretty_print, plain or verbose, to_s, inspect) shows its names, fields, offsets, documentation and the whole value, whatever the type, those with pointers included, and to_h describes the type as deep as asked, with or without its layout. Container.of_size and insert build containers of the given elements, independent of each other. is_a? holds for the type, its base classes and what its first field is; minimal_registry has what the type needs and nothing else. Registry.guess_type, handler_for and import choose the handler of a file by its kind or extension, and pass it the file and options. The plugins found by TYPELIB_RUBY_PLUGIN_PATH or in the load path are loaded, once.",
  ["inputs"], "all types, values, option combinations, file names and plugin directories",
  "Tests check one or two fixed types for pretty_print, to_h and memory_layout, and none of the failing combinations.",
  ["bindings/ruby/lib/typelib/type.rb", "bindings/ruby/lib/typelib/compound_type.rb", "bindings/ruby/lib/typelib/container_type.rb", "bindings/ruby/lib/typelib/enum_type.rb", "bindings/ruby/lib/typelib/array_type.rb", "bindings/ruby/lib/typelib/registry.rb", "bindings/ruby/lib/typelib.rb", "bindings/ruby/ext/value.cc"],
  [("Type.memory_layout, pretty_print, to_h, inspect", "bindings/ruby/lib/typelib/type.rb"), ("ContainerType.of_size, insert", "bindings/ruby/lib/typelib/container_type.rb"), ("Registry.guess_type, handler_for, import", "bindings/ruby/lib/typelib/registry.rb"), ("load_typelib_plugins", "bindings/ruby/lib/typelib.rb")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in out: f.write(json.dumps(p) + "\n")
print(len(out), "properties")
