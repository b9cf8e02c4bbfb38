#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, kept here in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

W, R, X = "src/format/kdb2_xml_writer.rs", "src/format/kdb2_xml_reader.rs", "src/format/xml.rs"
KW, KR, KD = "src/format/kdb2_writer.rs", "src/format/kdb2_reader.rs", "src/format/kdb2.rs"
DB, GR, EN = "src/types/database.rs", "src/types/group.rs", "src/types/entry.rs"
KF, KFW, KFR = "src/types/key_file.rs", "src/format/kf_writer.rs", "src/format/kf_reader.rs"

prop("C01", "Database-level settings survive save and open",
 "Every database-level setting (name, description, default user name and their change times, colour, custom data, custom icons, attached binaries, history limits, key-change limits, maintenance days, memory-protection flags, recycle bin, template, last-selected and top-visible groups) is stored by every save under an element of its own and restored by open into the same setting. This holds whatever the values are and regardless of what the other settings contain; only the generator name, which save sets itself, is excepted.",
 ["inputs"], "all databases (every value of every setting), all save/open pairs",
 "the round-trip tests use a handful of databases, mostly with default settings, and compare only some settings",
 [W, R, X, DB], [("writer of the Meta section", W+": write_meta_section"), ("reader of the Meta section", R+": read_meta"), ("construction of the opened database", DB+": open_kdb2")])
prop("C02", "Groups and the group tree survive save and open",
 "Every group reachable from the root group is stored by every save together with all its own fields (UUID, name, notes, icon, custom icon, times, expiry, usage count, expansion state, auto-type and search settings, last top visible entry) and restored into the same fields, with its entries and subgroups at the same place in the tree and in the same order. No group, however deep, empty or numerous its siblings, is skipped, merged or moved.",
 ["inputs"], "all group trees and all field values",
 "tests build trees of one or two groups with default field values",
 [W, R, GR], [("writer of a group", W+": write_group_section"), ("reader of a group", R+": read_group")])
prop("C03", "Entries, their values and their history survive save and open",
 "Every entry, in every group and in every entry's history, is stored by every save together with all its own fields (UUID, icons, colours, URL override, tags, times, expiry, usage count, auto-type settings and associations), all its string values and all its binaries, and restored into the same fields, keys and values; history entries keep their order. No entry, association, string, binary or history item is skipped, duplicated or attached to another owner.",
 ["inputs"], "all entries and all values, keys, list lengths",
 "tests use a few entries and look at a few fields",
 [W, R, EN], [("writer of an entry", W+": write_entry_section"), ("reader of an entry", R+": read_entry")])
prop("C04", "Every scalar encoding decodes to the value that was encoded",
 "For every value of every scalar type that is stored as text (icon numbers, obfuscation settings, booleans and optional booleans, colours, integers, dates, UUIDs, base64 data, compressed data, well-known string keys), what save writes is text that open decodes to exactly that value. The tables of both directions agree on every member and the numeric ranges and digit positions match.",
 ["inputs"], "all members of every enumeration and the shape of every encoding",
 "unit tests of the conversions check each direction against a list that has to be kept in step by hand, and not the composition used by save/open",
 [X, "src/types/icon.rs", "src/types/obfuscation.rs", "src/types/color.rs", "src/types/string_key.rs"],
 [("encoders and decoders", X+": write_*_tag / read_*"), ("conversion tables", "src/types/icon.rs: from_i32 / to_i32")])
prop("C05", "Empty and whitespace-only texts are kept",
 "Open reads an element whose text is empty as the empty value and an element whose text consists only of whitespace as exactly that whitespace, for every text value, key and attribute-free element it reads. Such an element is never treated as missing and never makes open fail or drop the surrounding string, binary, custom-data item, icon or auto-type association.",
 ["inputs"], "all text-carrying elements, all empty or whitespace texts",
 "no test saves an empty key, an empty association or a whitespace-only value",
 [X, R], [("text reader", X+": read_string_opt and its callers"), ("optional parts of compound elements", R+": read_association, read_string, read_binary, read_custom_data_item")])
prop("C06", "Protected values are only stored encrypted, and come back protected",
 "On save every protected string and protected binary value is passed through the inner stream cipher before it is written, is marked protected in the file, and no other value is marked protected or passed through that cipher; the plain bytes of a protected value never reach the output. On open exactly the values marked protected are passed through the same kind of cipher, in the order in which they occur in the document, and become protected values again.",
 ["inputs", "histories"], "all mixtures and orders of plain, protected and referenced values",
 "tests round-trip one protected value; a cipher that is skipped, restarted or applied out of step on some shape of database is not visible to them",
 [W, X, "src/crypto/salsa20.rs"], [("encryption of values", W+": write_string_section, write_binary_section"), ("decryption of values", X+": read_string_value_opt, read_binary_value_opt"), ("one cipher per document", W+": write, "+R+": read")])
prop("C07", "File header fields written by save are the ones open reads back",
 "Save writes signature, version and every header field that open needs, each exactly once with the identifier, length, width, byte order and value encoding that open expects for that field, before the end marker; open stores each field in the setting it was written from, and refuses a file in which a mandatory field is missing or has the wrong length. The comment, compression, cipher, rounds and version settings of the database therefore survive save and open.",
 ["inputs"], "all settings; all orders and contents of header fields",
 "tests exercise one header layout",
 [KW, KR, KD, DB], [("header writers", KW+": write, write_*"), ("header readers", KR+": read, read_*"), ("identifiers and sizes", KD)])
prop("C08", "Save and open derive the same keys from all of the credentials",
 "The key that encrypts the payload on save and the key that decrypts it on open are the same function of the composite key, the two seeds and the number of rounds, every one of which influences the result; the composite key depends on all bytes of the password and of the key file that were given. The number of transformation rounds applied is exactly the configured number on every processor.",
 ["inputs", "configurations"], "all passwords, key files, seeds, round counts; with and without AES instructions",
 "tests use fixed vectors with one round count and run on one kind of processor, so one of the two implementations is never executed",
 ["src/types/composite_key.rs", "src/types/transformed_key.rs", "src/types/master_key.rs", "src/types/stream_key.rs", KW, KR],
 [("composite key", "src/types/composite_key.rs"), ("rounds", "src/types/transformed_key.rs: new"), ("final key", "src/types/master_key.rs: new")])
prop("C09", "Every save and every new key file uses fresh randomness",
 "Each save draws the master seed, the transform seed, the encryption IV, the protected-stream key and the start bytes anew from the operating system's random generator, each from a separate draw, and each new key file draws its key the same way. Nothing else, such as a constant, the previous file or another of these values, determines any of their bytes.",
 ["histories", "inputs"], "all saves, all databases (newly created or opened), all sequences of saves",
 "no test compares the values of two saves, and reuse cannot be excluded by sampling",
 [KW, "src/crypto/random_gen.rs", KF], [("random values", KW+": write"), ("generator", "src/crypto/random_gen.rs")])
prop("C10", "Nothing but the header is stored outside the encrypted payload",
 "Apart from the fixed signatures and the header fields, save hands to the output only the result of encrypting the whole payload with the master key and IV; names, texts, attachments, keys and credentials reach the output in no other way. The encrypted payload consists of the start bytes followed by the blocks, and open applies the inverse steps in the inverse order.",
 ["inputs"], "all databases and writers",
 "tests do not inspect the bytes written for leaked content",
 [KW, "src/crypto/aes256.rs", "src/compression/gzip.rs"], [("payload pipeline", KW+": write"), ("encryption", "src/crypto/aes256.rs: encrypt")])
prop("C11", "Open returns a database only after the key has been verified",
 "Open uses the decrypted payload only if it begins with all 32 start bytes given in the header and otherwise fails with the invalid-key error, including when the payload is shorter; no data of a file that fails this test is parsed or returned. Padding that cannot be removed also ends in an error.",
 ["inputs"], "all files, all keys",
 "tests try one wrong key",
 [KR, "src/crypto/aes256.rs"], [("start byte comparison", KR+": read")])
prop("C12", "Open accepts payload blocks only if they are intact and complete",
 "Open takes the data of a block into account only if its number is the next in sequence starting from zero and the SHA-256 of all of its data equals the hash stored with it, for every block; the payload ends only at an empty block whose hash is all zero. Truncation, reordering, duplication or alteration of blocks makes open fail with an error.",
 ["inputs"], "all payloads, all numbers and sizes of blocks",
 "tests open intact single-block files only",
 [KR, "src/crypto/sha256.rs"], [("block reader", KR+": read_xml_bytes")])
prop("C13", "The stored header hash covers the whole header and is enforced",
 "Save stores in the encrypted document the SHA-256 of exactly the bytes of the signatures, version and header it wrote, and open computes the SHA-256 of exactly the bytes it consumed up to the end of the header and rejects the file when the document contains a hash that differs. Neither side includes bytes of the payload or leaves out any header byte.",
 ["inputs"], "all headers, including unknown comment contents and split reads",
 "tests open files whose hash matches; a hash over part of the header would still match itself",
 [DB, KW, KR, "src/io/log_reader.rs", "src/io/log_writer.rs"], [("logging of header bytes", "src/io/log_reader.rs, src/io/log_writer.rs"), ("comparison", DB+": open_kdb2")],
 [("log", "bytes transferred since the start of the header")])
prop("C14", "Opening any input returns a result and never panics",
 "Opening a database or a key file returns a value or an error for every input, every key and every behaviour of the reader; it does not panic on truncated, malformed, oversized or hostile content. No index, slice, conversion or arithmetic operation on data derived from the input can be out of range.",
 ["inputs", "fault_sequences"], "all byte strings as database or key file, all keys, all reader errors",
 "tests feed well-formed inputs and a few invalid ones",
 [DB, KR, R, X, KFR, "src/types/color.rs"], [("checked conversions", X+", src/types/color.rs"), ("payload length check", KR+": read")])
prop("C15", "Saving and the other public operations never panic",
 "Saving a database or a key file, deriving keys and every accessor, conversion, lookup and edit operation of the public types returns normally for every value of its arguments and every behaviour of the writer. An operation that cannot succeed reports this through its result.",
 ["inputs", "fault_sequences"], "all databases, arguments and writer errors",
 "tests call the operations with ordinary values",
 [DB, GR, EN, KW, W, KFW], [("checked conversions", KW), ("lookups", GR+", "+EN)])
prop("C16", "Failures while reading or writing are reported, not swallowed",
 "When the underlying reader or writer fails, when the document is malformed, or when decoding, decompressing, encoding or encrypting fails, open and save return an error; in particular save does not report success unless every byte was accepted by the writer and open does not return a partly read database. The only tolerated defect is an auto-type association that lacks one of its elements, which is left out.",
 ["fault_sequences", "inputs"], "every call that can fail, every point of failure",
 "tests use in-memory streams that never fail",
 [KW, KR, W, R, X, KFR, KFW], [("error propagation", "every fallible call in src/format, src/crypto and src/compression")])
prop("C17", "Partial reads and writes are handled",
 "Open and save give the same result for readers and writers that transfer fewer bytes than requested: a short read is continued and never leaves part of a buffer unfilled, a short write is continued and never loses bytes. The header log grows by exactly the bytes that were transferred.",
 ["fault_sequences", "inputs"], "all ways in which reads and writes can be split",
 "in-memory cursors always transfer everything at once",
 [KW, KR, KFW, DB, "src/io/log_reader.rs", "src/io/log_writer.rs"], [("exact reads and complete writes", KR+", "+KW), ("logging", "src/io/log_reader.rs: read, src/io/log_writer.rs: write")])
prop("C18", "Key files keep their key and type across save and open",
 "A key file of any of the three types that is saved and opened again yields the same key bytes and the same type; the type of an opened key file is decided by the length of its content alone (32 bytes binary, 64 bytes hexadecimal, anything else XML), and malformed hexadecimal or XML content is rejected with an error. New key files hold 32 random bytes and have the type that was asked for.",
 ["inputs"], "all key contents, all three types, all file contents",
 "tests use a few fixed keys",
 [KF, KFR, KFW], [("writer", KFW), ("reader", KFR)])
prop("C19", "The library touches nothing but its arguments",
 "No operation opens files, sockets or processes, reads environment variables, or keeps mutable global or thread-local state; input comes only from the given reader, output goes only to the given writer, apart from diagnostics on standard error and random numbers and the time from the operating system. Saving does not modify the database.",
 ["inputs", "histories"], "all operations and sequences of operations",
 "tests cannot observe the absence of side effects",
 ["src/lib.rs", DB, KW], [("effects", "every external call in the crate")])
prop("C20", "Secrets are not revealed by formatting",
 "Formatting a composite key, key file, protected string or protected binary, or a structure that contains them, with the debug or display formatters does not reveal key or secret bytes, and no error message or diagnostic contains key material, passwords or decrypted protected values. Credentials and protected values are held in the secure-string type, which is wiped on drop.",
 ["inputs"], "all values, all formatting traits, all error paths",
 "tests do not look at formatted output",
 ["src/types/composite_key.rs", "src/types/key_file.rs", "src/types/string_value.rs", "src/types/binary_value.rs", "src/types/error.rs"],
 [("types of secret fields", "src/types/*.rs"), ("diagnostics", X+": read_err")])
prop("C21", "Searching entries matches plain values only, ignoring case",
 "Searching entries by text returns exactly the entries, in all groups of the tree, that have at least one unprotected string value containing the text regardless of case; protected values never influence the result. Searching groups by name returns exactly the groups whose name contains the text regardless of case.",
 ["inputs"], "all databases, all search texts",
 "tests search small databases for a few texts",
 [DB], [("matching", DB+": find_entries, find_groups, entry_contains_string")])
prop("C22", "Lookups visit the whole tree, mutable or not",
 "Looking up a group or entry by UUID, searching, and iterating over groups consider the group itself and every group below it, each exactly once and in breadth-first order, and a lookup by UUID returns an element with that UUID whenever one exists. The mutable variant of each operation selects the same elements in the same order as the immutable one.",
 ["inputs"], "all trees, all UUIDs and texts",
 "tests use trees with one or two levels",
 [DB, GR], [("iterators", GR+": Iter, IterMut"), ("lookups", DB+": get_*, find_*")])
prop("C23", "After open every parent link names the containing group",
 "In an opened database the parent of every entry, of every history entry and of every group below the root is the UUID of the group that contains it, wherever the UUID element stands in the group and however deep the group is nested; the parent of the root group is the nil UUID.",
 ["inputs"], "all documents, all element orders, all depths",
 "one test looks at the parents of one file",
 [R], [("linking", R+": read_group, read_entry")])
prop("C24", "Adding and removing affects exactly the named child",
 "Adding an entry or group appends exactly the given value at the end of the children and changes nothing else; removing by UUID removes and returns the first direct child with that UUID, keeps all other children and their order, and returns nothing and changes nothing if there is none.",
 ["inputs", "histories"], "all groups, all UUIDs, all sequences of operations",
 "tests remove from lists with one element",
 [GR], [("operations", GR+": add_entry, add_group, remove_entry, remove_group")])
prop("C25", "New groups, entries and icons get fresh random identifiers",
 "Each newly created group and entry has a randomly generated UUID obtained from the UUID generator at its creation, never the nil UUID, a constant or one shared with another object; creating a database gives its root group such a UUID. The nil constructors give the nil UUID.",
 ["histories"], "all creations",
 "tests compare at most two identifiers",
 ["src/types/group_uuid.rs", "src/types/entry_uuid.rs", "src/types/custom_icon_uuid.rs", GR, EN], [("generation", "new_random")])
prop("C26", "Parsing always ends",
 "Every loop executed by open and by key-file reading consumes input or counts towards a bound in each iteration and leaves when the input ends or is malformed, so that opening terminates for every finite input. Every loop executed by save ranges over a finite collection or buffer of the database.",
 ["inputs"], "all finite inputs, all databases",
 "a hang needs a particular malformed input",
 [KR, R, KFR, "src/crypto/aes256.rs"], [("loops", "every loop in the crate")])
prop("C27", "Unsupported formats are refused explicitly",
 "Open refuses with an error a wrong first signature, a KeePass 1 or unknown second signature, an unknown header field, and a master cipher, stream cipher or compression it does not implement, instead of guessing; save refuses a KeePass 1 database without writing anything. Only the identifiers of the supported KeePass 2 algorithms are accepted.",
 ["inputs", "configurations"], "all signatures, identifiers and algorithm numbers",
 "tests try one or two wrong values",
 [DB, KR, KD, "src/common.rs"], [("signature checks", DB+": open, save"), ("algorithm checks", KR+": read_compression, read_master_cipher, read_stream_cipher")])
prop("C28", "Lengths and numbers are never silently truncated",
 "Every length or number that save writes in a fixed-width field is either known to fit or checked, and save fails with an error when it does not fit; open converts lengths it reads only to types that can hold them. No stored value is the truncated or wrapped form of another number.",
 ["inputs"], "all lengths of comments, payloads and values",
 "needs comments over 64 KiB or documents over 4 GiB",
 [KW, KR, X], [("checked conversions", KW+": write_comment, write_block")])
prop("C29", "Safe functions never hand out aliasing mutable references",
 "No safe public operation lets a caller hold two mutable references to the same group, entry or value, or a mutable and a shared one, at the same time. The crate therefore creates references only in ways the compiler checks and contains no other unsafe code.",
 ["programs"], "all programs using the public API",
 "undefined behaviour is invisible to tests",
 [GR, "src/lib.rs"], [("absence of unsafe code", "whole crate")])
prop("C30", "Stack use does not grow with the input",
 "Opening, saving, and searching use an amount of stack that is bounded independently of how deeply the groups of a database or the elements of a document are nested. No cycle of calls is driven by the nesting of the input.",
 ["inputs"], "all nesting depths",
 "tests nest one or two levels",
 [W, R, GR], [("call graph", "whole crate")])
prop("C31", "Saved documents are well-formed",
 "Every document that save writes, for databases and key files, consists of one root element in which start and end tags are balanced and properly nested and every text belongs to the element it is the value of, on every path on which save succeeds. Element names are fixed names and never depend on the data.",
 ["inputs"], "all databases, key files and paths through the writer",
 "tests parse a few documents",
 [W, X, KFW], [("tag writers", X+": write_start_tag, write_end_tag")])
prop("C32", "Text that XML cannot represent is rejected by save",
 "Save fails with an error instead of writing a document that open cannot read back when a text, key or identifier contains a character that XML does not allow, or when a protected string value is not valid UTF-8. Every database text that reaches the document, as element text or as attribute, is covered.",
 ["inputs"], "all texts in all fields",
 "tests save ordinary texts",
 [X, W], [("character check", X+": check_chars"), ("UTF-8 check", W+": write_string_section")])
prop("C33", "Entry accessors read and write the value they name",
 "For each of title, user name, password, URL, notes and any other key, the setter stores the given text under exactly that key and the getter of the same name returns the text stored under it, whether it is held protected or plain, and nothing when there is none. Passwords are stored protected by their setter; setting one value changes no other value.",
 ["inputs", "histories"], "all texts, keys and sequences of accessor calls",
 "tests set and get a few values",
 [EN, "src/types/string_value.rs"], [("accessors", EN+": title, set_title, ...")])
prop("C34", "What open returns does not depend on how the document is laid out",
 "A document with the same content as one that save writes opens to the same database: whether or not there is white space between its elements, whether its texts are written as character data or as CDATA sections, in which order the child elements of an element come (protected values being encrypted in document order), and whatever comments, processing instructions and elements with names that the format does not use lie between them. The same holds for key files in XML.",
 ["inputs"], "all databases and key files that can be saved; each of the listed layouts",
 "tests open documents laid out by this library or by one other program",
 ["src/format/kdb2_xml_reader.rs", X, "src/format/kf_reader.rs"], [("element loops", "src/format/kdb2_xml_reader.rs: read_group, read_entry, ..."), ("texts", X+": read_string_opt")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
