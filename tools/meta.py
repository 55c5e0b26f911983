#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from what is stated here."""
import json, os, re, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, level="exploration", observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
        mechanism=[dict(name=n, where=w) for n, w in mechanism], technique=technique, note=note, level=level,
        observe=list(observe)))


Y = "src/yaml/"

prop(
    "C01", "A document which isn't edited is written byte for byte as it was read",
    "Whatever input the parser accepts, writing the document without having edited it produces exactly the bytes which were read, including comments, blank lines, indentation, quoting, line endings, headers and bytes which are not UTF-8. Looking at the document through any accessor, mutable ones included, does not change that.",
    ["inputs"],
    "For all byte strings accepted by the parser, and all read-only uses of the resulting document.",
    "The tests compare a few dozen hand written documents; layouts combine without bound, and a byte lost in a rare combination (a prefix of an empty value, a separator in an inline mapping, a header) is invisible to them.",
    [Y + "parsing.rs", Y + "raw.rs", Y + "document.rs", Y + "data.rs"],
    [("every byte the parser consumes is interned as a prefix, separator, suffix or scalar", Y + "parsing.rs"),
     ("write_to renders the interned pieces in order", Y + "raw.rs"),
     ("headers and suffix of the document", Y + "document.rs")],
    "byte-exact round-trip monitor over generated, mutated and hostile documents",
    "Every accepted document of the workload is written back and compared byte by byte, also after no-op navigation. Trusts the workload to reach the layouts that matter; counts of each layout feature are in the evidence.",
    observe=["from_slice", "Document::write_to"])

prop(
    "C02", "Every way of rendering a document agrees, and rendering changes nothing",
    "Displaying a document, converting it to a string and writing it to a writer produce the same text (with bytes which are not UTF-8 replaced when displayed), before and after any edits, every time. Displaying a single value shows exactly the part of the document which holds that value.",
    ["inputs", "histories"],
    "For all documents, all histories of edits, and all values of the document.",
    "There are two independent renderers, and the tests only ever call one of them on a given document unless a special configuration is used.",
    [Y + "raw.rs", Y + "document.rs", Y + "value.rs"],
    [("Raw::display and Raw::write_to are written separately", Y + "raw.rs"),
     ("Document::display", Y + "document.rs")],
    "differential monitor of both renderers on every state of random edit histories",
    "Compares all renderers with each other after every edit, renders twice, and compares each value's rendering with its place in the text.")

prop(
    "C03", "A writer's failure is reported, and what it got is a prefix of the document",
    "If the writer or formatter a document is written to fails, the failure is returned as it was raised and nothing further is written; short writes and interruptions are retried, so that what the writer received is always a prefix of the document, and all of it if success is reported. The document can be written again afterwards with the same result, also if the writer panics, or uses documents itself.",
    ["fault_sequences", "inputs"],
    "For all documents and all sequences of faults a writer can have: an error, a short write, an interruption or a refusal at every byte offset.",
    "The tests only write to a vector, which cannot fail.",
    [Y + "raw.rs", Y + "document.rs"],
    [("errors of the writer are propagated from every level of the renderer", Y + "raw.rs"),
     ("Document::write_to", Y + "document.rs")],
    "fault injection at every byte offset of the output with a prefix oracle",
    "Each document of the workload is written to a faulty writer, with a fault at every byte offset (sampled for long documents) of every kind.",
    level="fault_enumeration")

prop(
    "C04", "Parsing terminates without a panic on any bytes, and does so repeatably",
    "Given any bytes, the parser returns a document or an error: it does not panic, hang, crash or use memory or time out of proportion to the input (eight times as much input takes about eight times as long to read and write). Reading the same bytes again gives the same outcome, whatever was read in between, accepted or not, and whatever surrounds the bytes in memory.",
    ["inputs"],
    "For all byte strings, up to a nesting depth the call stack can hold.",
    "Tests feed well formed text; a parser is only robust if it is for every malformed one.",
    [Y + "parsing.rs", Y + "error.rs"],
    [("every loop of the parser consumes input or leaves", Y + "parsing.rs"),
     ("slices and peeks are bounded by the input", Y + "parsing.rs")],
    "panic, hang, crash and allocation monitors under hostile inputs (soup, mutation, truncation)",
    "Panics are caught, CPU time and heap per case limited, crashes confirmed in a fresh process. Two findings about the depth of the call stack are recorded as known.")

prop(
    "C05", "Errors point at the place which is malformed",
    "When input is rejected, the error has the kind which describes what is wrong with it, and a span inside of the input which locates it: a bad escape from its backslash to the first byte which cannot be part of it, a collection which isn't closed or an entry without separator from after the last complete entry, something after the document from there to the end of the input. Errors can be displayed. Text which is put before the malformed construct moves the span by exactly its length.",
    ["inputs"],
    "For all rejected byte strings, and all malformed constructs in all places of otherwise valid documents.",
    "Tests do not look at errors at all.",
    [Y + "error.rs", Y + "parsing.rs"],
    [("spans are made from positions in the input", Y + "parsing.rs"), ("Error and ErrorKind", Y + "error.rs")],
    "oracle for kind and position of errors planted in generated documents",
    "Malformed constructs of every kind are planted at known places; spans are checked to be inside of the input for all hostile input.")

prop(
    "C06", "Documents mean what they say",
    "Reading a document gives the values which its author wrote: scalars are decoded according to their style, entries and items belong to the collection they are indented or enclosed in, in order and with nothing missing or added. Other YAML parsers read the same values from what both understand.",
    ["inputs"],
    "For all documents of the supported dialect: block and inline collections in any nesting, every scalar style, comments and blank lines anywhere.",
    "A handful of fixtures exercise each construct on its own; combinations of indentation, styles, comments and line endings are unbounded.",
    [Y + "parsing.rs", Y + "raw.rs"],
    [("indentation decides what a line belongs to", Y + "parsing.rs"),
     ("quoted and block scalars are decoded", Y + "parsing.rs")],
    "generated documents checked against their known meaning and libyaml",
    "Documents are generated together with the values they mean, and compared with what this crate and libyaml (through serde_yaml) read. The dialect's limits are listed in DESIGN.md. Two findings are recorded as known.")

prop(
    "C07", "Bare scalars have the right type and typed accessors never lie",
    "A bare scalar is a number, boolean, null or string exactly as its text says, wherever it stands. A typed accessor returns a number only if the value is representable in that type, and then it is exactly that number (or the nearest one for floats); otherwise it returns nothing, and it never wraps or truncates.",
    ["inputs"],
    "For all texts of bare scalars in all contexts, and all ten integer and two float types.",
    "The domain is all texts; tests try about twenty numbers.",
    [Y + "parsing.rs", Y + "number.rs", Y + "value.rs", Y + "any.rs"],
    [("the number grammar", Y + "parsing.rs"), ("accessors", Y + "number.rs"), ("accessors of values", Y + "value.rs")],
    "reference grammar and big-integer oracle for scalar texts in random contexts",
    "Texts around the grammar and around every integer type's limits are compared with an independent recognizer and exact decimal arithmetic.")

prop(
    "C08", "All read views of a collection agree with each other",
    "Indexing, looking up keys, iterating from either end or both with any mix of steps and skips, lengths and size hints, first and last, and views reached through any conversion all report the same entries in the same order. An iterator which is exhausted stays exhausted, and looking up a key gives the first entry of that name.",
    ["inputs", "histories"],
    "For all documents, after all edits, and all scripts of iterator calls.",
    "Tests iterate forwards, over small collections.",
    [Y + "mapping/mapping.rs", Y + "mapping/iter.rs", Y + "sequence/sequence.rs", Y + "sequence/iter.rs", Y + "any.rs", Y + "value.rs"],
    [("double ended, exact size iterators", Y + "mapping/iter.rs"), ("double ended, exact size iterators", Y + "sequence/iter.rs"),
     ("get, first, last", Y + "sequence/sequence.rs")],
    "iterator-script monitor against a vector reference on every collection",
    "Random scripts of iterator calls are run side by side with a reference deque for every collection of generated, edited and hostile documents.")

prop(
    "C09", "Editing mappings behaves like an ordered list of entries",
    "Inserting adds an entry at the end or replaces the value of the first entry with that key in place; removing takes out the first entry with that key and says whether there was one; clearing leaves nothing. Everything else in the mapping keeps its value and order.",
    ["histories", "inputs"],
    "For all documents and all histories of edits of their mappings, nested ones included.",
    "Effects depend on the history: a key which was removed, an entry which replaced another, a mapping which was just made.",
    [Y + "mapping/mapping_mut.rs", Y + "value_mut.rs", Y + "data.rs"],
    [("inner_insert replaces or appends", Y + "mapping/mapping_mut.rs"), ("values are replaced or dropped in the slab", Y + "data.rs")],
    "random edit histories checked against an ordered-list model after every step",
    "After each operation the whole document is compared with the model, through the API.")

prop(
    "C10", "Editing sequences behaves like a vector",
    "Pushing appends an item, removing an index takes out exactly that item, moves later ones up and says whether there was one, and clearing leaves nothing. Everything else in the sequence keeps its value and order.",
    ["histories", "inputs"],
    "For all documents and all histories of edits of their sequences, nested ones included.",
    "Effects depend on the history and on the layout of the sequence.",
    [Y + "sequence/sequence_mut.rs", Y + "value_mut.rs", Y + "data.rs"],
    [("inner_push appends", Y + "sequence/sequence_mut.rs"), ("values are replaced or dropped in the slab", Y + "data.rs")],
    "random edit histories checked against a vector model after every step",
    "After each operation the whole document is compared with the model, through the API.")

prop(
    "C11", "An edit only changes the text of what is edited",
    "Setting a value only replaces that value's text; adding an entry only inserts text at the end of its collection; removing one only removes its text. All other bytes of the document, such as comments, layout, quoting and line endings, stay as they are and in order.",
    ["histories", "inputs"],
    "For all documents and all histories of edits.",
    "This is what the crate exists for; tests check it for single edits of small documents.",
    [Y + "value_mut.rs", Y + "mapping/mapping_mut.rs", Y + "sequence/sequence_mut.rs", Y + "raw.rs", Y + "data.rs"],
    [("values are replaced in place and keep their prefix", Y + "data.rs"), ("new items get a prefix of their own", Y + "raw.rs")],
    "before/after byte-diff monitor around every edit of random histories",
    "Each edit's effect on the text is compared byte by byte: a common prefix and suffix around the edited place. Exceptions at which layout has to change are listed in DESIGN.md.")

prop(
    "C12", "An edited document reads back as what it was edited to",
    "After any edits, writing the document and reading it again, with this crate or another YAML parser, gives the same values as the edited document holds.",
    ["histories", "inputs"],
    "For all documents and all histories of edits within the supported dialect.",
    "Whether the text which edits leave behind can be read depends on the layout around it: indentation, inline collections, comments, block scalars.",
    [Y + "raw.rs", Y + "value_mut.rs", Y + "mapping/mapping_mut.rs", Y + "sequence/sequence_mut.rs", Y + "parsing.rs"],
    [("indentation of new entries and collections", Y + "raw.rs"), ("quoting of strings which could be misread", Y + "raw.rs")],
    "read-back oracle (this crate and libyaml) after every edit of random histories",
    "After every edit the text is parsed by this crate, and by libyaml when it is plain YAML, and compared with the model. One finding is recorded as known.")

prop(
    "C13", "Any string can be stored and is read back as that string",
    "A string which is set, pushed, inserted or used as a key, whatever characters it has and wherever it goes, is written in a form which is read back as that same string, and never as a number, boolean, null, comment, or part of something else. When a quoting style is asked for, that style is used.",
    ["inputs", "configurations"],
    "For all Unicode strings, all setters, all quoting styles which can represent them, and all contexts (block, inline, root, key).",
    "The domain is all strings: tests try a few which need quoting.",
    [Y + "raw.rs", Y + "value_mut.rs", Y + "mapping/mapping_mut.rs", Y + "sequence/sequence_mut.rs", Y + "parsing.rs"],
    [("RawStringKind::detect chooses the quoting", Y + "raw.rs"), ("escaping", Y + "raw.rs"), ("unescaping", Y + "parsing.rs")],
    "read-back oracle for strings, every code point included, in every setter and context",
    "Strings are written, read back by this crate and libyaml; every Unicode scalar value is tried on its own as value and key (enumerated).")

prop(
    "C14", "Numbers, booleans and nulls which are stored are read back exactly",
    "A number, boolean or null which is set, pushed or inserted with a typed method is read back as exactly that value, with its type, by this crate and other YAML parsers.",
    ["inputs", "configurations"],
    "For all values of all twelve number types, both booleans and all styles of null, all setters and all contexts.",
    "The domain is all numbers.",
    [Y + "value_mut.rs", Y + "mapping/mapping_mut.rs", Y + "sequence/sequence_mut.rs", Y + "number.rs"],
    [("numbers are formatted by itoa and ryu", Y + "value_mut.rs"), ("numbers are parsed by lexical-core", Y + "number.rs")],
    "read-back oracle for typed setters, bit for bit",
    "Values around every type's limits and random ones are compared bit for bit after being read back. One finding (NaN and infinities) is recorded as known.")

prop(
    "C15", "Block scalars which are stored are read back as their lines",
    "Lines which are set, pushed or inserted as a literal or folded block with any chomping are read back as these lines, joined and terminated as the style says, at any depth of nesting and whatever follows in the document; lines which a block cannot represent, such as ones with line breaks or surrounding white space, are quoted to that end. If taking the lines panics, nothing has changed.",
    ["inputs", "configurations"],
    "For all sequences of lines, both styles, all chompings, all setters and all places in documents.",
    "Block scalars depend on the indentation around them and on what follows.",
    [Y + "raw.rs", Y + "value_mut.rs", Y + "parsing.rs"],
    [("new_block indents according to the surrounding collection", Y + "raw.rs"), ("block scalars are parsed by indentation", Y + "parsing.rs")],
    "read-back oracle (this crate and libyaml) for block setters in generated places",
    "Compares with the lines by this crate and libyaml; what follows the block has to be unchanged.")

prop(
    "C16", "An identifier refers to the same value for as long as it exists",
    "The identifier of a value keeps resolving to that value however the rest of the document is edited, and no two values which exist have the same one. A value which is set, or overwritten by inserting its key again, keeps its identifier, and the identifier which inserting or pushing returns is that of the new value. Edits through an identifier are edits of that value.",
    ["histories"],
    "For all documents and all histories of edits.",
    "Identifiers are reused slots: aliasing takes a removal followed by an insertion.",
    [Y + "data.rs", Y + "document.rs", Y + "value_mut.rs"],
    [("values live in a slab, and are dropped with everything in them", Y + "data.rs"), ("Document::value, Document::value_mut", Y + "document.rs")],
    "shadow map of all live identifiers, checked after every edit",
    "All live identifiers are kept along with the path they are expected at, and resolved after every edit.")

prop(
    "C17", "Edits lay out new text predictably",
    "A new entry is laid out like its siblings: on its own line with their indentation in block collections, separated by a comma and a space (or the white space its last sibling has) in inline ones, in front of a trailing comma or white space before the closing bracket, which stays, and with the separator which was asked for. A new collection is indented deeper than what it is part of. A value which is replaced keeps its place.",
    ["inputs", "configurations"],
    "For all documents, all edits and separators.",
    "The tests pin the layout of a few edits.",
    [Y + "raw.rs", Y + "mapping/mapping_mut.rs", Y + "sequence/sequence_mut.rs", Y + "data.rs"],
    [("make_indent, make_item_prefix", Y + "raw.rs"), ("inner_insert", Y + "mapping/mapping_mut.rs"), ("inner_push", Y + "sequence/sequence_mut.rs")],
    "byte-exact prediction of the text after single edits",
    "The text after an edit is predicted from the positions of values in the text before it, and compared byte by byte.")

prop(
    "C18", "Clones of a document are independent of each other",
    "Editing or dropping a document has no effect on its clones, or on what it was cloned from; a clone starts out equal, with the same identifiers.",
    ["histories"],
    "For all interleavings of edits, clones and drops over a family of documents.",
    "Tests do not clone documents.",
    [Y + "document.rs", Y + "data.rs"],
    [("Document is a deep copy of its data", Y + "document.rs")],
    "histories over families of clones with unchanged-others oracle",
    "After each step every other member of the family is compared with what it was.")

prop(
    "C19", "Serializing a document emits what its accessors report",
    "Serializing a document or any value of it through serde emits the same structure, order and scalars which accessors report, with exact lengths, strings which are not UTF-8 as bytes, and numbers put through a typed method as that type. Errors of the serializer are returned at once, and the document is unchanged.",
    ["inputs", "histories", "fault_sequences"],
    "For all documents, after all edits, all values, and a failure at every call of the serializer.",
    "Tests serialize a few values with one serializer.",
    [Y + "serde/ser.rs", Y + "serde/mod.rs"],
    [("Serialize of values, mappings and sequences", Y + "serde/ser.rs")],
    "recording serializer compared with accessors, with failures injected at every call",
    "Every call to the serializer is recorded and compared with the model; also through serde_yaml and serde_json.")

prop(
    "C20", "Deserializing gives what accessors report, for every type",
    "Deserializing a document or any value of it into a type succeeds exactly when the values it holds fit the type, and gives the values accessors report; strings are borrowed from the document. What serde writes as JSON, or as YAML without tags, is read back as the same value.",
    ["inputs", "programs"],
    "For all documents and all types of serde's data model.",
    "Tests deserialize into a few structs.",
    [Y + "serde/de.rs"],
    [("Deserializer of values", Y + "serde/de.rs"), ("map and sequence access", Y + "serde/de.rs")],
    "recording deserializers and a zoo of types compared with accessors and serde_json",
    "Every value is deserialized into recorders, every number type, options, strings, bytes and a zoo of structs and enums, compared with serde_json on the same data.")

prop(
    "C21", "A document which is snapshotted and restored can't be told apart",
    "A document which is serialized with its layout (the serde-edits feature) and restored has the same text, values, types and identifiers, whatever edits came before. Editing both in the same way keeps them the same.",
    ["histories", "inputs"],
    "For all documents, all edits before and after the snapshot, and several formats.",
    "There are no tests of this feature.",
    [Y + "document.rs", Y + "data.rs", Y + "raw.rs"],
    [("derived Serialize and Deserialize of everything a document holds", Y + "data.rs"), ("slab with holes", Y + "data.rs")],
    "lockstep monitor of the original and restored documents through several formats",
    "Snapshots through CBOR, YAML and a value tree, compared in text, values and identifiers after every following edit.")

prop(
    "C22", "What happens doesn't depend on features, build profile, process or platform",
    "The same input and the same edits give the same documents, values, errors, identifiers, results and panics with every combination of cargo features, with and without optimizations and overflow checks, in every process, and on 32-bit and big-endian platforms. A snapshot taken on one platform can be restored and edited on another.",
    ["inputs", "histories", "configurations"],
    "For all inputs and edits, in all build configurations.",
    "The tests are run in one configuration, and nothing compares two of them.",
    [Y + "mod.rs", Y + "data.rs", Y + "parsing.rs", Y + "number.rs"],
    [("features only add trait implementations", Y + "mod.rs"), ("the type hint of numbers without serde", Y + "mod.rs"),
     ("string identifiers are hashes which do not depend on the process", Y + "data.rs"),
     ("arithmetic which neither overflows nor depends on it", Y + "parsing.rs")],
    "differential monitor: digests of a full trace of one workload compared between builds",
    "The same seeded workload is built six ways and run, and one of them twice; every case tells everything observable after every edit, and digests are compared. Small cases are interpreted for s390x and i686 with Miri as well, and snapshots are exchanged with these.")

prop(
    "C23", "Memory a document holds is bounded by what is in it, and is given back",
    "Repeating edits which undo themselves does not make a document need more memory: whatever is removed, replaced or cleared, with everything inside of it, is reclaimed (each distinct string is kept once). Reading needs memory in proportion to the input, a copy needs no more than the original, and dropping a document or rejecting an input gives everything back.",
    ["histories", "inputs"],
    "For all documents, all cycles of edits over a fixed set of strings, and any number of repetitions.",
    "No test looks at memory, and a leak only shows after many edits.",
    [Y + "data.rs", Y + "value_mut.rs", Y + "mapping/mapping_mut.rs", Y + "sequence/sequence_mut.rs"],
    [("what is replaced or removed is dropped recursively", Y + "data.rs"), ("strings are interned", Y + "data.rs"),
     ("slots of removed values are used again", Y + "data.rs")],
    "counting allocator: live bytes and blocks compared over repeated edit cycles and after drops",
    "The allocator of the monitor counts every allocation. Cycles of edits are repeated 60 times, and have to settle within 8.")

prop(
    "C24", "Documents can be shared and handed between threads without changing anything",
    "Documents, errors, identifiers and all views can be sent to and shared by threads. Any number of threads reading a document, while others edit copies of it or read the same text, see exactly what a single thread sees, without data races; a document handed to another thread behaves as before.",
    ["schedules", "inputs"],
    "For all documents and all interleavings of readers, and edits of copies.",
    "The tests are single threaded and nothing asserts that the types may be shared.",
    [Y + "data.rs", Y + "document.rs", Y + "value.rs"],
    [("no interior mutability or shared state in documents", Y + "data.rs"), ("views borrow the document", Y + "value.rs")],
    "thread sanitizer, and comparison of what concurrent readers see with sequential results",
    "Readers start at a barrier and overlap (counted); everything they see is compared with what one thread saw. The same under the thread sanitizer, with the standard library instrumented. Schedules are those which happen.")

prop(
    "C25", "No input or edit leads to a memory error or undefined behaviour",
    "Reading any bytes, editing, writing and dropping documents never accesses memory out of bounds or after it was freed, does not use uninitialized memory, and does nothing which is undefined behaviour, in this crate or in what it uses.",
    ["inputs", "histories"],
    "For all byte strings and all edits.",
    "Tests pass regardless of undefined behaviour which happens to be benign, and feed few malformed inputs.",
    [Y + "parsing.rs", Y + "raw.rs", Y + "data.rs", Y + "number.rs"],
    [("peeks and slices of the input are checked", Y + "parsing.rs"), ("identifiers are non-zero integers", Y + "data.rs")],
    "address sanitizer and Miri over the workload of C22",
    "All cases under the address sanitizer with debug assertions, and a few (16 quick, about 200 thorough) in Miri.")

#MORE

READY = {p["id"] for p in P}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None)),
            ensure_ascii=False) + "\n")

manifest = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(
        property=p["id"], quick_cmd="bash check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
        technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="Checks read VERIF_SEED and VERIF_TIER. Only the public API is used: there are no hooks in /repo. See DESIGN.md.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
