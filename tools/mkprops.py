#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ALLS = ["src/structures"]
L = "src/lib.rs"

prop("C01", "Decoding never touches memory outside the captured buffer",
 "Searching for the entry point, walking the table, decoding a structure and stepping through anything it contains read only bytes of the buffer the caller passed in, however that buffer was truncated or damaged on its way from firmware. Every string or byte slice handed back lies inside that buffer.",
 ["inputs", "fault_sequences"], "every captured image, every truncation point, every combination of stored-byte damage, every placement of the buffer in memory",
 "The tests decode seven captured images and hand-written structures held in large static arrays: no test puts unmapped memory next to the buffer, truncates a read or damages a length, and an over-read of a few bytes of a static array is silent.",
 [L, *ALLS], [("length checks in front of the raw struct reads", "src/lib.rs:let_as_struct and its users"), ("bounds-checked accessors", "src/lib.rs:RawStructure::get/get_slice"), ("progressive reader", "src/structures/003_enclosure.rs:read_bytes")],
 ["entry-point search", "structure iteration", "nested iterators", "returned references"])

prop("C02", "Damaged firmware data never panics or aborts the caller",
 "Whatever bytes were read, searching, walking, decoding, stepping through nested lists, converting sizes, comparing, hashing and formatting the results return to the caller: as a value, an error or the end of an iteration. None of them panics, aborts or overflows, in a build with overflow checks or without.",
 ["inputs", "fault_sequences", "configurations"], "every captured image under every fault sequence (bit flips, zeroed, stale or duplicated blocks, truncation, torn updates), in checked and unchecked builds",
 "Tests feed well-formed images plus a few malformed samples; a panic needs a specific length, count or version byte to be hit by damage.",
 [L, *ALLS], [("error returns instead of indexing", "src/lib.rs:Structures::next_raw, RawStructure::get"), ("per-type length checks", "src/structures/*.rs: try_from")],
 ["every public call on decoded data"])

prop("C03", "Every iteration ends within a bounded number of steps and stays ended",
 "Iterating over a captured table, its strings or any list inside a structure yields no more items than the bytes behind it can hold and then ends, whatever the data says. Once an iterator has reported its end, or the table walk has reported that it cannot find the next structure, every later call reports the end again.",
 ["inputs", "fault_sequences", "histories"], "every captured image and every history of calls on an iterator, including calls after errors and after the end",
 "Tests collect iterators once over good data; a loop that does not advance or that revives after its end shows only on particular damage or on calls after the end.",
 [L, "src/structures/013_bios_language.rs", "src/structures/014_group_associations.rs", "src/bitfield.rs"], [("walk stops after a framing error", "src/lib.rs:Structures::next"), ("cursor advances on every item", "src/lib.rs:Structures::next_raw, StructureStrings::next")],
 ["step counts per iterator", "calls after the end"])

prop("C04", "The walk yields each stored structure once, in order, and stops on time",
 "Walking a captured table yields every structure that starts within the declared table length exactly once, in table order, with its own type and handle. The walk ends at the declared length, after the end-of-table marker for version 3 and later, or right after reporting the first structure whose extent cannot be determined.",
 ["inputs", "histories", "fault_sequences"], "every inventory the firmware publishes, every table size, every mixture of intact and damaged structures",
 "Tests walk three real tables of one shape; sizes beyond 64 KiB, empty string sets, maximal lengths, markers in the middle, trailing garbage and damaged structures between good ones are not covered.",
 [L], [("header framing and terminator scan", "src/lib.rs:Structures::next_raw, find_nulnul"), ("end-of-table handling", "src/lib.rs:Structures::next"), ("type dispatch", "src/lib.rs:Structures::next, InfoType::from")],
 ["sequence of (type, handle, outcome)"], [("idx", "offset of the next structure", "src/lib.rs:Structures"), ("smbios_len", "declared length, cut to stop", "src/lib.rs:Structures")])

prop("C05", "Entry-point search accepts exactly the intact first anchor",
 "Searching a captured region succeeds exactly when the first paragraph-aligned anchor in it starts an entry point that is complete in the region, has a supported version and a correct checksum, and then reports its version, revision, table address and table length as stored. Otherwise it fails with the reason: no anchor, wrong size, too old, or bad checksum.",
 ["inputs", "fault_sequences", "configurations"], "every region size, anchor position, entry-point format and length, under truncation and bit damage",
 "Tests search two captured entry points and two complete images; they never damage a byte, truncate a region or vary the region size.",
 [L], [("anchor scan", "src/lib.rs:find_signature"), ("size, version and checksum checks", "src/lib.rs:EntryPoint::search")],
 ["result of the search and its accessors"])

prop("C06", "A short read yields an exact prefix and flags what is missing",
 "When only the first part of a well-formed table was read, the walk reports the structures that are complete in that part exactly as a full read would. If any structure is missing, the walk ends with an error instead of ending as if the table were complete.",
 ["crash_points", "fault_sequences", "inputs"], "every cut point of every published table: short reads, end of file and interrupted reads at any byte",
 "One test uses one short table; the guarantee is over every cut position.",
 [L], [("bounds of header, formatted area and terminator against the buffer", "src/lib.rs:Structures::next_raw")],
 ["walk over the prefix compared with the walk over the full table"])

prop("C07", "Damage inside one structure never changes what other structures report",
 "Corrupting bytes of one structure's fields or text, without changing where it ends, changes only what is reported for that structure: all structures before and after it are still reported with the same values. A structure that is rejected because its contents are damaged does not end the walk.",
 ["fault_sequences", "inputs"], "every structure position, every byte damaged, any number of damaged bytes",
 "No test decodes a table with one damaged member; the failure needs state leaking between structures or a walk aborted by a decode error.",
 [L, *ALLS], [("decode errors do not stop the walk", "src/lib.rs:Structures::next"), ("each structure decodes only its own slice", "src/lib.rs:RawStructure")],
 ["pairwise comparison of two decoded histories"])

prop("C08", "String references resolve inside the owner's string set or fail",
 "A text field reports the string with the referenced number from the structure's own string set, and the empty string when the reference is zero. A reference beyond the set, or to text that is not valid UTF-8, is reported as an error (or as absent for optional text), never as another string, and unreadable text does not change which string any other reference resolves to.",
 ["inputs", "fault_sequences"], "every reference number, every string-set size and content, under damage to references and to text",
 "Tests use small string sets with valid references; boundary references, sets of 255 strings, empty sets and text damaged in place are not exercised.",
 [L, *ALLS], [("reference lookup", "src/lib.rs:RawStructure::find_string, get_string"), ("string splitting", "src/lib.rs:StructureStrings")],
 ["every reported text"])

fid = "decoded values compared with the values the simulated firmware stored, by an independent reference decoder"
whyf = "Tests decode a handful of samples per type; combinations of version, length, sentinel values, count extensions and string references under damage elsewhere in the image are open-ended."
prop("C09", "BIOS, system, board and chassis data are reported exactly as stored",
 "For every BIOS, system, baseboard and chassis structure whose bytes survived the read, the reported values are exactly those the firmware stored, interpreted for the declared specification version, including byte order, the version-dependent UUID layout, optional fields, contained elements and the ROM size in bytes. A structure too short for its mandatory fields is rejected with an error.",
 ["inputs", "fault_sequences", "histories"], "every published structure of types 0 to 3, at every version and formatted length, whatever faults hit the rest of the capture",
 whyf, ["src/structures/000_bios.rs", "src/structures/001_system.rs", "src/structures/002_baseboard.rs", "src/structures/003_enclosure.rs"],
 [("versioned layouts", "000_bios.rs, 001_system.rs: try_from"), ("length-driven fields", "002_baseboard.rs, 003_enclosure.rs: try_from")], [fid])
prop("C10", "Processor, cache, port and slot data are reported exactly as stored",
 "For every processor, cache, port connector and system slot structure whose bytes survived the read, the reported values are exactly those the firmware stored, including the wide family code and the wide core and thread counts when the narrow ones defer to them, size granularities and the sizes in bytes they give, and the unused-value markers of slots; peer devices and device/function numbers convert back to the stored bytes. A structure of the wrong length for its version is rejected with an error.",
 ["inputs", "fault_sequences", "histories"], "every published structure of types 4, 7, 8 and 9, at every version and formatted length, whatever faults hit the rest of the capture",
 whyf, ["src/structures/004_processor.rs", "src/structures/007_cache.rs", "src/structures/008_port_connector.rs", "src/structures/009_system_slots.rs"],
 [("versioned layouts", "004_processor.rs, 007_cache.rs: try_from"), ("length checks and offsets", "009_system_slots.rs: try_from")], [fid])
prop("C11", "Memory inventory data is reported exactly as stored",
 "For every physical memory array, memory device, memory error and mapped-address structure whose bytes survived the read, the reported values are exactly those the firmware stored, with the not-provided markers reported as absent and the extended values taken when the basic ones defer to them. A structure of the wrong length for its version is rejected with an error.",
 ["inputs", "fault_sequences", "histories"], "every published structure of types 16 to 20, at every version and formatted length, whatever faults hit the rest of the capture",
 whyf, ["src/structures/016_physical_memory_array.rs", "src/structures/017_memory_device.rs", "src/structures/018_memory_error_32.rs", "src/structures/019_memory_array_mapped_address.rs", "src/structures/020_memory_device_mapped_address.rs"],
 [("offset-based getters with sentinels", "016..020: try_from")], [fid])
prop("C12", "Strings, languages, groups, event log, pointer and battery data are exact",
 "For every OEM-strings, configuration-options, language, group, event-log, pointing-device and battery structure whose bytes survived the read, the reported values are exactly those the firmware stored, including packed dates, access methods, the choice between basic and smart-battery values and the capacity they give in milliwatt-hours; event descriptors convert back to the stored bytes. A structure whose length or string count contradicts its own counts is rejected with an error.",
 ["inputs", "fault_sequences", "histories"], "every published structure of types 11 to 15, 21 and 22, at every version and formatted length, whatever faults hit the rest of the capture",
 whyf, ["src/structures/011_oem_strings.rs", "src/structures/012_system_configuration_options.rs", "src/structures/013_bios_language.rs", "src/structures/014_group_associations.rs", "src/structures/015_system_event_log/mod.rs", "src/structures/021_built_in_pointing_device.rs", "src/structures/022_portable_battery.rs"],
 [("count and length checks", "012, 014, 015, 021, 022: try_from")], [fid])
prop("C13", "Fields the firmware did not provide are never invented",
 "An optional value is reported as present only if the structure's own formatted area contains all of its bytes and, where the layout depends on the declared specification version, that version defines it. Bytes that follow the formatted area, such as the structure's strings or the next structure, never influence a reported non-text value.",
 ["inputs", "fault_sequences", "configurations"], "every (declared version, formatted length) pair for every structure type, with arbitrary bytes behind the formatted area",
 "Tests fix one or two versions per type with full-length data; the failure needs a structure shorter than its version suggests.",
 ALLS, [("version and length gates", "src/structures/*.rs: try_from"), ("bounded getter", "src/lib.rs:RawStructure::get")],
 ["presence of each optional value; twin decode with different bytes behind the formatted area"])
prop("C14", "Readers that share a capture never influence each other",
 "Any number of readers, each with its own or a cloned iterator or decoded value over the same or different captures, observe exactly what they would observe running alone, whatever the interleaving of their calls, including calls made from inside a formatting or hashing callback of another. Decoded values and iterators can be handed to and shared between threads.",
 ["schedules", "histories"], "every interleaving of the calls of up to four readers, every cloning point, every reader abandoned half-way",
 "Tests are single-threaded and sequential.",
 [L, *ALLS, "src/bitfield.rs"], [("no shared mutable state; iterators own their cursor", "src/lib.rs:Structures, StructureStrings; nested iterators"), ("borrowed decoding", "src/structures/*.rs")],
 ["per-reader history compared with its solo run", "cloned versus original iterators"])
prop("C15", "A failing output sink is reported and nothing is written after it",
 "Formatting any decoded value, error or flag into a sink that starts to fail at any point returns an error to the caller, writes nothing after the failure, and leaves in the sink exactly a prefix of the full text. A later attempt with a working sink produces the full text again.",
 ["fault_sequences", "inputs"], "every formattable value, every byte position at which the sink can fail, every formatting style",
 "Tests format into growable strings, which cannot fail.",
 [L, *ALLS, "src/bitfield.rs"], [("formatter errors are propagated", "all fmt::Display/fmt::Debug impls")],
 ["return value and sink history"])
prop("C16", "Everything works with no memory to allocate",
 "Searching, walking, decoding, stepping through nested lists, comparing, hashing and formatting give the same results when every request for heap memory is refused, with the standard-library option on or off.",
 ["fault_sequences", "configurations"], "every workload with the allocator refusing every request made inside the library",
 "Tests run with a working allocator and cannot see an allocation.",
 [L, *ALLS, "src/bitfield.rs"], [("no_std, borrowed results, lazy iterators", "src/lib.rs: #![no_std]")],
 ["allocator seam armed around every library call"])
prop("C17", "Nested lists yield exactly the stored records under any stepping",
 "Contained elements, peer devices, group members, event-type descriptors, languages and strings are yielded in stored order, each complete record exactly once and nothing else, however the list is stepped: one by one, skipping, after cloning, or partly abandoned and resumed. Records too short to be decoded are not made up.",
 ["histories", "inputs", "fault_sequences"], "every count and record length, every history of next, skip, clone and resume",
 "Tests collect each list once, for two or three lists of default record size.",
 ["src/structures/003_enclosure.rs", "src/structures/009_system_slots.rs", "src/structures/013_bios_language.rs", "src/structures/014_group_associations.rs", "src/structures/015_system_event_log/mod.rs", L],
 [("chunked iterators", "ContainedElements, PeerDevices, SupportedEventLogTypeDescriptors"), ("cursor iterators", "GroupItems, InstallableLanguages, StructureStrings")],
 ["items per stepping history compared with the stored records"])
prop("C18", "Bit-field views account for every bit exactly once under any stepping",
 "For any stored value, stepping a bit-field view yields each bit position of the field once, in order, with its actual state and the meaning its layout gives it; the significant view yields exactly the set non-reserved bits and the reserved view exactly the reserved runs, in order. Collecting positions back, in any order and with repetitions, gives the value they came from, and clones taken at any point continue independently.",
 ["histories", "inputs"], "every stored value of every bit field, every interleaving of steps over the three views and their clones",
 "Tests cover a few constant values and collect each view once.",
 ["src/bitfield.rs", "src/structures/000_bios.rs", "src/structures/009_system_slots.rs", "src/structures/013_bios_language.rs", "src/structures/015_system_event_log"],
 [("three iterators over one layout", "src/bitfield.rs: Iter, Significants, Reserved"), ("position collection", "src/bitfield.rs: FromIterator<Position>")],
 ["items per stepping history"])
prop("C19", "Re-reading after a restart gives equal values with equal hashes",
 "Decoding the same stored bytes again, after a restart, from another copy at another address, or half-way through another walk, gives values that compare equal and hash equally, and formatting them gives the same text. Values decoded from contents that differ in any reported field compare unequal.",
 ["crash_points", "histories", "inputs"], "every crash and restart point of a reader, every placement of the recaptured copy, every published inventory",
 "Tests decode each image once and compare with constants.",
 [L, *ALLS], [("content-based equality and hashing", "derives and manual impls for the chunked iterators")],
 ["equality, hash streams and text of twin decodes"])
prop("C20", "Errors identify the damaged structure",
 "Every error reported during a walk identifies what is wrong: extent errors carry the offset of the offending structure in the table, length and string errors carry its type and handle, string errors also the offending reference, so that each error can be matched with the structure the firmware stored there. The error is delivered in the position of that structure in the walk.",
 ["inputs", "fault_sequences"], "every position, type and handle of a damaged structure, every kind of damage that makes it undecodable",
 "Tests check the kind of a few errors on hand-made structures, not their position and identity within a table.",
 [L, *ALLS], [("error constructors", "src/lib.rs:MalformedStructureError; src/structures/*.rs")],
 ["payload and position of every error"])
prop("C21", "Structures of other types are handed over verbatim",
 "A structure whose type has no dedicated decoding is handed over with its type, handle, declared length, version and exactly its stored formatted bytes. Reading a number, a slice or a text at a specification offset returns what is stored there, and an error or nothing if it does not lie completely inside the formatted area.",
 ["inputs", "fault_sequences"], "every other type, length and content, every offset and width asked for",
 "Tests look at a few unknown structures in captured tables and never at the accessors' edges.",
 [L], [("raw hand-over", "src/lib.rs:RawStructure"), ("typed getters", "src/lib.rs:TryFromBytes, RawStructure::get/get_slice/get_string")],
 ["raw structure fields and accessors"])

# properties this family of technique does not decide
prop("N01", "Displayed texts name each code as the specification does",
 "The text shown for each code, flag and structure type is the specification's wording for it.",
 ["inputs"], "every code of every enumeration", "Only a few texts are compared in tests.",
 ALLS, [("Display impls", "src/structures/*.rs")], ["Display output"])
prop("N02", "The library builds without the standard library and for its minimum compiler",
 "With the standard-library option off the library needs neither std nor alloc, and it builds with its declared minimum compiler version.",
 ["configurations"], "every feature set and supported compiler", "CI builds, not tests.",
 ["Cargo.toml", L], [("#![no_std]", L)], ["build"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
