"""Writes properties.jsonl (kept as code so that it is easy to edit)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {"files": ["src/avb/" + f for f in files],
                  "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Saving and reopening preserves the whole document, in both byte orders",
 "For every document whose property values fit the format, saving it in either byte order and opening the result yields an equal document: the same classes, the same present properties with the same values, the same absent optional properties, the same null references, the same list orders and the same sharing of objects. The file header's save time (to the second) and creator version (up to 30 Mac Roman characters, trailing blanks being padding) also survive.",
 ["inputs", "programs"], "every acyclic document built or edited through the public API (all registered classes, any values in range, any sharing; a text that is none and an empty text are one where the format has only the empty one), little and big endian, pure and compiled reader",
 "The tests round-trip two small hand-made bins and compare sample files, always little-endian and never with boundary values; most classes are never created by a test at all.",
 ["core.py","file.py","ioctx.py","bin.py","components.py","trackgroups.py","misc.py","essence.py","attributes.py","mobid.py"],
 [("per-class read/write pairs","components.py trackgroups.py misc.py essence.py bin.py attributes.py"),("AVBFile.write / read_object","file.py")],
 [("property_data","present properties of an object","core.py AVBObject"),("ref_mapping","instance id -> chunk number of the save in progress","file.py")],
 ["AVBFile.write then avb.open, comparing the object graph"])

prop("C02", "Saved objects are encoded exactly in their class's Avid binary layout",
 "Every object in a saved file is encoded exactly as its class's binary layout prescribes: sections, version bytes, field order, widths, signedness, byte order, string and float encodings, the optional sections of exactly the present optional properties with their tags and type markers, and the terminator. This holds for every in-range combination of values, so other readers of the format can read the file, and objects taken from a sample file are written back byte for byte.",
 ["inputs","configurations"], "every class, every in-range value of every field, every subset of optional fields, both byte orders",
 "The chunk tests rewrite one or a few sample chunks per class, little-endian only; no test covers big-endian layout, boundary values or other subsets of the optional fields, and a reader and a writer that are wrong in the same way still round-trip.",
 ["ioctx.py","bin.py","components.py","trackgroups.py","misc.py","essence.py","attributes.py"],
 [("write methods","every class"),("AVBIOContext.write_*","ioctx.py"),("write_object","file.py")],
 [], ["bytes of each chunk of a saved file"])

prop("C03", "Every well-formed object encoding decodes to exactly the values it holds",
 "For every class and both byte orders, reading a well-formed encoding yields exactly the encoded values, whichever subset of the optional sections is present and in whatever order they appear. Absent optional sections leave their properties absent rather than defaulted or carried over.",
 ["inputs","configurations"], "every class, field values, subsets and orders of optional sections, both byte orders, pure reader",
 "Sample chunks hold the optional sections in one order and subset, written by one program; no big-endian sample exists for most classes.",
 ["ioctx.py","bin.py","components.py","trackgroups.py","misc.py","essence.py","attributes.py","file.py"],
 [("read methods with iter_ext loops","every class"),("AVBIOContext.read_*","ioctx.py")], [],
 ["properties of the opened object"])

prop("C04", "The compiled reader and the pure Python reader give the same objects",
 "Opening a file with the compiled extension and opening it without yield equal objects for every chunk the extension handles: same present properties, equal values, equal references, and the same subsequent editing behaviour. Where one of the two refuses a chunk as malformed the other refuses it too.",
 ["inputs","configurations"], "every little-endian chunk of the classes the extension handles, any values, any optional sections; well-formed, truncated or with bad tags",
 "The tests run with whichever reader is installed and never compare the two; the sample files do not hold negative or large values where signedness matters.",
 ["_ext.pyx","_ext_core.cpp","file.py"],
 [("READERS dispatch","file.py read_object"),("_ext_core.cpp parsers","_ext_core.cpp")], [],
 ["AVBFile(use_ext=True) against AVBFile(use_ext=False)"])

prop("C05", "A saved file holds each reachable object once, children first, root last",
 "A saved file contains exactly the objects reachable from the content root, each exactly once however often it is shared, with every stored reference pointing to an earlier chunk (or null) and the root as the last chunk named by the header. The header's object count and the chunk sizes agree with the file, so walking the chunks ends exactly at the end of the file, and enumerating chunks or objects by class finds exactly those objects.",
 ["inputs","histories"], "every acyclic object graph, any sharing, any edit history including removed objects and objects created but never attached",
 "Tests save two small trees without sharing; nothing checks the structure of the file itself.",
 ["file.py","core.py","ioctx.py"],
 [("walk_references post-order","core.py"),("write / write_object / write_object_ref","file.py ioctx.py"),("chunks, iter_class_ids","file.py")],
 [("ref_mapping","ids already written","file.py")], ["the saved file parsed independently"])

prop("C06", "Saving is repeatable, side-effect free and lossless across byte orders",
 "Saving a document does not change it: saving twice gives identical files, and saving, reopening and saving again in the same byte order gives an identical file. Converting little to big endian and back gives the original file again.",
 ["histories","inputs"], "every document, every sequence of saves, reopens and byte-order changes",
 "Tests save once; none compares two saves or converts between byte orders twice.",
 ["file.py","ioctx.py","core.py"],
 [("write with per-save ref_mapping","file.py"),("AVBIOContext byte order","ioctx.py")], [], ["bytes of successive saves"])

prop("C07", "No edit is ever lost, whether or not the program keeps the object alive",
 "Every change made through the public API to an object of an opened or new document — setting a property, changing a reference list or attribute map, or changing something nested inside it such as a track, bin item, control point or column — is in the next saved file and visible to later navigation, even when the program keeps no reference to the object and garbage is collected in between.",
 ["histories","schedules"], "every sequence of navigate, edit, drop-reference, collect-garbage, save and reopen steps",
 "Tests keep every object alive until the save; the objects of an opened file live in a weak cache, so what matters is which edits happen before an unpredictable garbage collection.",
 ["core.py","file.py","attributes.py","trackgroups.py","bin.py","_ext.pyx"],
 [("mark_modified / add_modified","core.py file.py"),("object_cache weak dictionary","file.py")],
 [("modified_objects","objects kept alive because they differ from the file","file.py"),("object_cache","live objects by id","file.py")],
 ["navigation and saved file after gc.collect()"])

prop("C08", "Opening, navigating and saving elsewhere changes nothing",
 "Opening a file, reading any property, iterating and searching, and saving to another path never change the opened file's bytes, never change what the document contains, and are never treated as edits; memory used by objects that were only looked at can be reclaimed (mobs held by a bin's own id index excepted). Closing a document releases its file.",
 ["histories"], "every sequence of read-only operations on every document, pure and compiled reader",
 "Tests only look at results; they never check that nothing was flagged, retained or changed.",
 ["core.py","file.py","attributes.py","_ext.pyx"],
 [("reading flag","file.py read_object, core.py mark_modified")],
 [("modified_objects","edited objects","file.py"),("reading","true while an object is decoded","file.py")], ["AVBFile.modified_objects, object_cache, source bytes"])

prop("C09", "A copy equals its source",
 "Copying an object within a document or into another one yields a new object of the same class whose present properties, values, optional absences, list orders and nested objects equal the source's, with nothing added. The copy belongs wholly to the destination document and can be saved there.",
 ["inputs"], "every class, any present/absent optional properties, null references and list entries, same or different destination document",
 "Tests copy a few mobs of one sample file and only check that saving works.",
 ["core.py","attributes.py","trackgroups.py","bin.py"],
 [("AVBObject.copy, AVBRefList.copy, Attributes.copy","core.py attributes.py")], [], ["object graph of the copy"])

prop("C10", "A copy and its source never affect each other",
 "After copying, no later change to the copy or anything inside it is visible in the source, and no later change to the source or anything inside it is visible in the copy, for nested objects, helper objects, lists, byte strings, ids and dictionaries alike.",
 ["histories","inputs"], "every class and every mutable value nested anywhere in it, every edit on either side",
 "No test edits a copy and looks at the source.",
 ["core.py","attributes.py","mobid.py"],
 [("deep copy of nested values","core.py copy")], [], ["values of the untouched side"])

prop("C11", "An object of another document can never be saved by reference",
 "Saving a document from which an object of a different document is reachable is refused with an error naming the problem, wherever the foreign object hangs and whatever its internal number; it is never silently written, skipped or replaced by another object. After the foreign object is removed or copied over, the same document saves correctly.",
 ["inputs","histories"], "every attachment point, every relation between the two documents' object numbers, new and opened documents",
 "One test attaches one foreign mob at one place.",
 ["file.py","core.py","ioctx.py"],
 [("root check in write_object","file.py")], [("octx","write context of the save in progress","file.py")], ["exception or saved file"])

prop("C12", "References to the same object yield the same object; numbers are never reused",
 "While an object is alive, every path that leads to the same stored object yields that one Python object, and different stored objects never share one. Objects created in a document get numbers distinct from each other and from those in the opened file, so none is confused with another during editing or saving.",
 ["histories"], "every interleaving of navigation, creation, dropping and garbage collection",
 "Identity under weak caching depends on what is alive when; tests do not look at identity.",
 ["file.py","utils.py","core.py"],
 [("object_cache","file.py read_object"),("next_object_id","file.py AVBFactory.from_name")], [("object_cache","weak map number -> live object","file.py")], ["`is` comparisons and instance ids"])

prop("C13", "Reference lists behave as ordinary lists of objects",
 "For every sequence of list operations — append, extend, insert, remove, pop, delete, assign, clear, sort, reverse, slice, index, count, membership, iteration, length — a reference list, new or read from a file, gives the results, errors and contents an ordinary list of the same objects gives, never exposing raw reference placeholders. The resulting contents are what gets saved.",
 ["histories"], "every operation sequence on new lists and lists read from a file (pure and compiled reader)",
 "No test calls most of the list operations, and none on lists that came from a file.",
 ["core.py","attributes.py","_ext.pyx"],
 [("AVBRefList","core.py")], [], ["list contents after every operation, and after save and reopen"])

prop("C14", "Attribute maps behave as ordered, typed dictionaries and survive saving",
 "For every sequence of dictionary operations an attribute map behaves as an insertion-ordered dictionary, with references resolved to objects in every accessor. Integers, text, byte arrays and object references survive saving with their type, value and order; values of any other type are refused rather than guessed (a truth value counts as an integer).",
 ["histories","inputs"], "every operation sequence and every value of the four attribute types, new maps and maps read from a file",
 "Tests set a handful of ASCII strings and small integers.",
 ["attributes.py","core.py"],
 [("Attributes","attributes.py"),("AVBPropertyData","core.py")], [], ["map contents after every operation, and after save and reopen"])

prop("C15", "Mob lookup and mob filters always agree with the bin's current contents",
 "Looking up a mob id returns a mob with that id currently in the bin (any of them when several share it), and nothing only if there is none, after every sequence of adding, removing, replacing or re-identifying mobs. The mob list, master-mob, composition-mob and top-level filters list exactly the matching mobs in bin order.",
 ["histories"], "every interleaving of lookups with adds, removals, direct item edits and mob id changes",
 "The lookup is cached; tests only look up in an unchanged or growing bin.",
 ["bin.py"],
 [("find_by_mob_id cache","bin.py Bin"),("add_mob","bin.py Bin")], [("_mob_dict","cached id -> mob","bin.py")], ["find_by_mob_id and the generators"])

prop("C16", "Dependent mobs: complete, each once, dependencies first, always terminating",
 "The mobs a mob depends on are exactly those reachable through source clips nested anywhere inside it, each listed once, never itself, and each after the mobs it depends on unless it lies on a circle of references. The enumeration terminates on every reference graph, including shared, missing and mutually referring mobs.",
 ["inputs"], "every reference graph of mobs with distinct ids: chains, diamonds, missing ids, self and mutual references, clips nested under sequences, selectors and effects",
 "Tests run it on the acyclic mobs of one sample file.",
 ["trackgroups.py","core.py","bin.py","components.py"],
 [("dependant_mobs","trackgroups.py TrackGroup"),("walk_references","core.py")], [], ["yield order"])

prop("C17", "Sequence timing: positions, length and lookup by time agree",
 "A sequence's length, the start positions of its components and the component found at a given time always agree: components follow each other, a transition overlaps the material before it by its own length, zero-length components occupy no time, and looking up any time inside a component finds that component and its start, transitions taking precedence. Times outside the sequence find the nearest component. (Lookups: sequences in which every time has one answer, that is, no two transitions meet and no material is shorter than the transitions over it.)",
 ["inputs"], "every sequence of components and transitions of any lengths, every time",
 "Tests query a few times in sample sequences; boundaries between components are where an error shows.",
 ["components.py"],
 [("length, positions, nearest_index_at_time","components.py Sequence")], [], ["results of the three calls"])

prop("C18", "Parameter curves: key-frame values exact, lookup and integration consistent",
 "Evaluating a parameter clip at a key frame's time gives that key frame's value; between key frames it gives the interpolation of its kind (constant, linear, cubic, Bezier) between the neighbouring key frames; before the first and after the last it is clamped. Integrating gives an entry for every half frame of the requested range, starts from the base frame at the first key frame, accumulates the curve's values, and gives consistent values for overlapping ranges.",
 ["inputs"], "every list of key frames (any count, rational times, coincident times), every interpolation kind, every time and range",
 "Tests compare six sample retimes with an external program's frames; no empty, single-point, coincident or out-of-range case.",
 ["components.py","interpolation.py"],
 [("nearest_index, value_at, integrate","components.py ParamClip"),("lerp, cubic_interpolate, bezier_interpolate, integrate_iter","interpolation.py")], [], ["returned numbers"])

prop("C19", "Mob ids: all representations agree and convert losslessly",
 "A mob id's fields, bytes (both orders), integer, hash, equality and URN text are views of one 32-byte value: setting through any view is seen by all others, each conversion and its inverse give the same id (except the URN text of ids whose material number begins like the registered label, where two ids have one text), equal ids hash equal, and copies are independent. Newly generated ids are distinct.",
 ["inputs","histories"], "every 32-byte value, every sequence of field assignments and conversions",
 "Tests convert a few ids; field overlaps and non-material instance bytes are not covered.",
 ["mobid.py","utils.py"],
 [("MobID properties","mobid.py")], [("bytes_le","32-byte backing store","mobid.py")], ["all accessors"])

prop("C20", "An interrupted or failed save is never mistaken for a document",
 "If a save stops at any point — crash, full disk or an object that cannot be written — it raises, and what is left at the target never opens as a document (unless it is the finished file or what was there before); the in-memory document and, unless it is the target, its source file are unharmed: navigation still works and a later save produces exactly what an undisturbed save would have.",
 ["crash_points","fault_sequences"], "every prefix of the sequence of file operations of a save, every failing object, every failing write; saves to new and existing files and over the opened file by any of its names",
 "Tests never interrupt a save.",
 ["file.py","ioctx.py"],
 [("counts patched last","file.py write"),("octx reset in finally","file.py write")], [("octx","write context","file.py")], ["avb.open of the remains; later saves"])

prop("C21", "Malformed files are refused, never partly or wrongly decoded",
 "A file whose header is cut short, lacks its fixed marks, announces more objects than are there or a root outside them, or an object whose bytes are cut short, followed by surplus bytes, or carry a wrong section marker, version, type marker, unknown optional tag or a reference outside the file, is refused with an error as soon as that object is read. No such object is ever returned, cached or resaved, and other objects of the file stay readable.",
 ["inputs","fault_sequences"], "every class, every truncation point, every corruption of a structural byte, both byte orders, both readers",
 "Tests only open good files.",
 ["ioctx.py","file.py","components.py","trackgroups.py","misc.py","essence.py","bin.py","attributes.py","_ext_core.cpp","_ext.pyx"],
 [("read_assert_tag, iter_ext, surplus check","ioctx.py file.py"),("index check","ioctx.py read_object_ref")], [], ["exception on access"])

prop("C22", "New objects are complete, independent and of the requested class",
 "Creating an object gives a new object of exactly the requested class owned by that document, with the documented defaults, whatever else was created before or while its arguments were evaluated. Objects created separately never share mutable state, so editing one never changes another or the defaults of later ones.",
 ["histories"], "every class, every interleaving of creations and edits of defaulted values",
 "Tests create a few objects per document and never edit a default and create again.",
 ["file.py","core.py","bin.py","essence.py","trackgroups.py","components.py"],
 [("AVBFactory","file.py"),("AVBPropertyDef.default","core.py")], [("class_name","class asked of the factory","file.py")], ["created objects"])

prop("C23", "Values the format cannot hold are refused, never silently altered",
 "Saving a document that holds a value outside the range of its field — too large or negative for its width, text not encodable or too long, wrong-sized byte strings or lists, a missing required value — raises an error and never stores a different value (rates are decimals and kept to six places). Bins too large for the small item count switch to the large layout automatically.",
 ["inputs"], "every field of every class at and beyond both ends of its range, text of every length around the limit, bins around 65535 items",
 "Tests use ordinary values only.",
 ["ioctx.py","bin.py","components.py","trackgroups.py","misc.py","essence.py","attributes.py"],
 [("struct.pack range checks","ioctx.py"),("large_bin switch","bin.py")], [], ["exception or stored bytes at save"])

prop("C24", "Source clips resolve to the mob and track they name",
 "A source clip's mob is the bin's mob with the clip's mob id, or nothing; its track is the track of that mob with the clip's track number and media kind, or nothing, whatever other tracks (without number or component) the mob has. A component's media kind name and number always correspond.",
 ["inputs"], "every clip/mob/track configuration incl. null, missing, duplicate and incomplete tracks; every media kind",
 "Tests resolve clips of complete sample mobs only.",
 ["components.py","trackgroups.py","bin.py"],
 [("SourceClip.mob, SourceClip.track","components.py"),("media_kind","components.py trackgroups.py")], [], ["clip.mob, clip.track, media_kind"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
