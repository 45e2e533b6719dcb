"""The properties: what each one says, which harness entries decide it, and within what bounds.

gen.py writes properties.jsonl and MANIFEST.json from this table; check.py runs it.
"""
PROPS = {}
RD, WR, XR, XW, XM = ("src/format/kdb2_reader.rs", "src/format/kdb2_writer.rs", "src/format/kdb2_xml_reader.rs",
                      "src/format/kdb2_xml_writer.rs", "src/format/xml.rs")
DB, GR, EN = "src/types/database.rs", "src/types/group.rs", "src/types/entry.rs"


def prop(id, title, statement, over, text, why, files, mechanism, entries, bounds, outside, **kw):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                     mechanism=[{"name": n, "where": w} for n, w in mechanism], entries=entries.split(),
                     bounds=bounds, outside=outside, **kw)


TEXT_BOUNDS = ("every text of 2 bytes of UTF-8 that XML can carry (3 bytes in the thorough tier), fields one at a time; "
               "all fields at once with 2-3 arbitrary lower-case letters each; ")

prop("C01", "Database settings survive save and open",
     "Saving a database and opening the result with the same key yields the same database settings: name, description, default user name, "
     "color, numbers, flags, times, group references, comment, version, compression and transform rounds.",
     ["inputs", "configurations"], "all values of every database-level field, all combinations of protection flags, both compressions",
     "The tests round-trip one or two hand-picked databases with default settings; no test varies most of these fields, so a swapped, dropped or "
     "truncated field passes.",
     [DB, RD, WR, XR, XW, XM],
     [("settings written to the Meta element", XW), ("settings read from the Meta element", XR), ("values converted to and from text", XM),
      ("outer header", WR + ", " + RD)],
     "h_meta_all h_meta_text h_meta_long h_meta_num h_meta_time h_meta_frac h_meta_uuid h_meta_color h_meta_header h_meta_gzip h_hard_meta",
     TEXT_BOUNDS + "36 texts that mean something to XML or people, each followed by any letter; texts of 0, 1, 47 and 5000 characters; all 17-bit numbers and 12 extreme ones; every second of 13 days between the years 1 and 9999; "
     "fractions of a second with an arbitrary digit at 6 places among 5 patterns; every UUID without '/' in its base64, and every value of 3 bytes of a UUID; every color; comments of "
     "0, 1 and 5 arbitrary bytes; every version; rounds 0, 1, 2, 7, 257.",
     "longer arbitrary texts, characters XML 1.0 cannot represent (refused, see C09), years outside 1..9999, rounds above 257, compressed databases with symbolic content")

prop("C02", "Entries survive save and open, with their history",
     "Saving a database and opening it again yields every entry with the same identity, icon, colors, times, expiry, usage count, tags, URL override, "
     "auto-type settings and associations, and the same history entries in the same order.",
     ["inputs", "histories"], "all values of every field of entries and of history entries, every number of history entries",
     "The round-trip test covers one entry with default values; no test fills the history, associations, colors or custom icons.",
     [EN, XR, XW, XM],
     [("Entry element written", XW), ("Entry element read", XR), ("text conversions", XM)],
     "h_entry_all h_entry_text h_entry_num h_entry_time h_entry_icon h_entry_opt h_entry_history h_entry_twins h_hard_entry h_many_versions h_many_entry",
     TEXT_BOUNDS + "numbers, times, UUIDs and colors as in C01; every icon; both obfuscations; every combination of the optional fields; up to 3 "
     "arbitrary history entries; 10 to 300 history entries under 5 settings of the history limits; 36 texts as in C01; 0-2 arbitrary associations, 300 known ones.",
     "history entries that themselves have a history (the format has none), more arbitrary entries than 4 per database")

prop("C03", "The group tree survives save and open, with parent links",
     "Saving a database and opening it again yields the same tree: every group and entry in the same place and order with the same "
     "group fields. In an opened database the parent of every entry and group is the group that contains it.",
     ["inputs", "programs"], "all trees of groups and entries and all values of the fields of a group",
     "The tests use trees of at most one level and check a few fields.",
     [GR, DB, XR, XW],
     [("Group element written recursively", XW), ("Group element read recursively, parents set afterwards", XR)],
     "h_tree_shape h_tree_deep h_tree_twins h_group_all h_group_text h_group_num h_group_time h_group_opt h_hard_group h_many_tree",
     "every tree of at most 4 groups below the root with 0-2 entries each (all shapes up to the bound in tree.rs), chains of 12 and 80 groups, 300 groups or entries side by side; fields as in C02; 36 texts as in C01",
     "larger trees")

prop("C04", "Strings of entries survive save and open, each with its protection",
     "Every string of an entry or history entry comes back under the same key, with the same text and the same protection, wherever in the "
     "database it is and however many others are protected.",
     ["inputs", "configurations"], "all keys, all texts, all assignments of protection, all places in the tree",
     "The tests store one or two short ASCII strings. White-space, markup, empty and long values, and several protected values sharing one key stream, are untested.",
     [XR, XW, XM, "src/crypto/salsa20.rs", "src/types/string_value.rs", "src/types/string_key.rs"],
     [("strings written, protected ones encrypted with the inner stream", XW), ("strings read and decrypted in the same order", XR)],
     "h_str_all h_str_text h_str_key h_str_key_empty h_str_key_near h_str_long h_str_places h_hard_str h_many_entry",
     "every text of 2 (3) bytes for a value or a key, plain or protected; 7 keys with every single odd-one-out protection; lengths 0..5000 and 70001 around the cipher's "
     "64-byte blocks; 8 combinations of places (entries, history, nested groups) with arbitrary secrets; 300 strings or attachments in one entry, a third of them protected; 36 texts as in C01 as values and keys; keys that are a standard name with any character, or one of 3 beyond ASCII, added, or one replaced, at its start, middle or end",
     "keys that differ from a standard key only in case (mapped to the standard key by design), protected values that are not UTF-8")

prop("C05", "Protected values leave the process only encrypted",
     "In a saved file, even after removing the outer encryption, no protected string or binary appears in clear text: each is XORed with its own part of the key "
     "stream, consecutively in document order, marked as protected.",
     ["inputs", "configurations"], "all protected values, in all places, under all memory-protection settings",
     "No test looks into the inner document of a saved file.",
     [XW, "src/crypto/salsa20.rs", "src/types/stream_key.rs"],
     [("protected values encrypted before they are written", XW), ("one cipher per document", XW)],
     "h_protected_secret h_protected_stream h_protected_long",
     "secrets of 8 arbitrary characters from a class that occurs nowhere else in the document, in 7 kinds of places incl. history, nested groups and attachments; "
     "streams of 1..65 bytes x 3, in 0-2 history entries as well; protected texts of 1000 to 20000 characters in 7 places",
     "copies of secrets in freed memory; secrecy of AES and Salsa20 themselves")

prop("C06", "Attachments, custom icons and custom data survive save and open",
     "Every attachment (plain, protected or referring to a shared one), shared binary, custom icon and custom data item comes back under the same key with the same bytes.",
     ["inputs"], "all contents, names, counts and kinds",
     "The tests contain no attachments, icons or custom data; base64, compression and attribute escaping of them are unexercised.",
     [XR, XW, XM, "src/compression/gzip.rs", "src/types/binary_value.rs"],
     [("binaries written as base64, gzip or reference", XW), ("binaries read", XR)],
     "h_bin_entry h_bin_text h_bin_long h_bin_shared h_bin_id h_icons h_icons_text h_custom_data h_custom_data_text h_hard_bin h_many_pool h_many_entry",
     "attachments of 0-3 arbitrary bytes, lengths 0..5000 with one arbitrary byte; names of 2 (3) arbitrary bytes; ids with one arbitrary character among others; "
     "shared binaries of 4 sizes up to 70000 with concrete content (they are always compressed); 0-4 icons and data items with arbitrary content, 300 with known content; 36 texts as in C01 as names",
     "arbitrary content of compressed binaries")

prop("C07", "A saved file is a valid KDBX 3.1 file that says what the database says",
     "Every file written by save follows the KDBX 3.1 format as an independent, strict reader understands it: header fields of the right size, each once; payload encrypted "
     "and padded; block ids and hashes; gzip when so marked; the header's hash in the document; a well-formed document in which every value of the database appears in the "
     "element, the type and the notation that the format assigns to it.",
     ["inputs", "configurations"], "all databases within the bounds of C01 to C06",
     "The tests only read back what the crate wrote, so an error made symmetrically in the writer and the reader, or one that only other programs notice, is invisible to them.",
     [WR, XW, XM, RD, "src/crypto/aes256.rs", "src/crypto/salsa20.rs", "src/compression/gzip.rs"],
     [("header, blocks and encryption written", WR), ("document written", XW), ("notation of values", XM), ("HeaderHash taken from the log of written bytes", "src/io/log_writer.rs")],
     "h_conf_meta h_conf_entry h_conf_tree h_conf_group h_conf_text h_conf_num h_conf_header h_conf_gzip h_hard_conf h_many_conf",
     "databases as in C01 to C06, with all fields at once arbitrary letters, and one arbitrary text of 2 (3) bytes in 8 kinds of places; every version, comments of 0..300 bytes, rounds up to 256; "
     "compressed documents up to 100 kB with concrete content; 36 texts as in C01 everywhere; hundreds of each kind of element",
     "carriage returns in text and white space in attributes, which the writer does not escape and XML readers normalise; the capitalisation of booleans (compared ignoring case)")

prop("C08", "Conforming KDBX 3.1 files of other programs are read for what they say",
     "Opening a file written by an independent implementation of KDBX 3.1 yields exactly the database the file describes, whatever the order of header fields, of elements and of "
     "attributes, the indentation, the notation of booleans, the way characters are escaped, the number and size of payload blocks, the gzip encoding, unknown elements and absent optional ones.",
     ["inputs", "configurations"], "all documents within the bounds, in all styles",
     "The tests open three sample files. Files of other programs that order, split, escape or omit things differently are not among them.",
     [RD, XR, XM, "src/crypto/aes256.rs", "src/crypto/salsa20.rs", "src/compression/gzip.rs"],
     [("header and blocks read", RD), ("document read", XR), ("values parsed", XM)],
     "h_read_meta h_read_entry h_read_tree h_read_pool h_read_text h_read_time h_read_num h_read_header h_read_blocks h_read_gzip h_hard_read h_many_read",
     "8 styles (element order, white space, booleans, unknown elements, prolog, capitals, escapes, omitted defaults, comments within text, CDATA sections, compressed attachments) for each of meta data, entries, trees and shared binaries, with arbitrary letters in "
     "every text; one text with any single character in each of 9 notations and any 2 bytes in one; times with arbitrary digits; numbers of up to 10 digits; 5 orders of header fields with an arbitrary "
     "comment; one document in blocks of all sizes (13 cuts x 4 shapes); 6 gzip encodings of a document; 36 texts as in C01 everywhere; hundreds of each kind of element",
     "elements nested within unknown elements, text interleaved with processing instructions, numbers beyond 32 bits (the API has none), several gzip members")

prop("C09", "What cannot be read or written is refused with the right error",
     "Files with another signature, an unknown header field, a field of the wrong size, a missing field, an unsupported cipher, compression or stream cipher, or KeePass 1 content are "
     "refused with the error that says so; a comment or text the format cannot hold is refused by save rather than corrupted.",
     ["inputs"], "all signatures, field identifiers, sizes, identifiers of algorithms, comment lengths and texts",
     "The tests check one example of each error; nothing checks that no other value slips through, nor the refusals of save.",
     [RD, WR, XW, DB, "src/types/error.rs"],
     [("signature dispatch", DB), ("header fields checked", RD), ("limits checked by the writer", WR + ", " + XW)],
     "h_err_signature h_err_field h_err_size h_err_missing h_err_kind h_err_kdb1 h_err_comment h_err_text h_err_utf8",
     "all 64-bit signatures, all 248 unknown field numbers, all sizes of the 9 fixed fields, every one of them missing, all 2^128 cipher ids, all 2^32 compressions and stream ciphers, comments up to and "
     "beyond the limit, every control character and non-character in texts of up to 5000 characters at 20 places; every 1-3 (4) bytes as a protected string",
     "which error is reported when a file is wrong in several ways")

prop("C10", "No other key opens a database",
     "A database saved with one key is not opened by any different key - other password, other key file, one of two missing, one too many: open reports a wrong key and nothing else.",
     ["inputs", "configurations"], "all pairs of different keys of all kinds",
     "The tests try one wrong password; truncated, ignored, mixed-up or colliding key parts would pass.",
     ["src/types/composite_key.rs", "src/types/transformed_key.rs", "src/types/master_key.rs", RD, "src/crypto/sha256.rs"],
     [("composite key from password and key file", "src/types/composite_key.rs"), ("start bytes compared", RD)],
     "h_key_wrong",
     "all 9 combinations of kinds of keys, passwords of 0, 1, 2, 3, 33, 64, 65, 128, 129 and 300 arbitrary ASCII characters and of 2 bytes of UTF-8, arbitrary 32-byte key files",
     "longer passwords",
     assumptions=["AES-256 under a different key does not by chance decrypt the first blocks to the start bytes; SHA-256 has no collisions"])

prop("C11", "Tampering with a file is detected",
     "A file is not opened if any header field, the stored header hash, any byte of the encrypted payload, or any hash, content, number or order of its payload blocks was changed.",
     ["faults", "inputs"], "every modified byte and every new value",
     "The tests contain no tampered file.",
     [RD, XR, DB, "src/io/log_reader.rs"],
     [("header hash compared with the one in the document", DB), ("block hashes and ids checked", RD), ("padding and start bytes", "src/crypto/aes256.rs")],
     "h_tamper_header h_tamper_hash h_tamper_saved h_tamper_block h_tamper_payload",
     "every new value of one byte of each header field of a reference file and of a saved file; every value of the stored hash that differs in 1 of 32 bytes; every hash and every number of each of 3 "
     "blocks, any changed byte of 6; any change of the first or last byte of 14 (60) of the cipher blocks of a saved file; comments of 100 to 65535 bytes with another byte at the beginning, in the middle or at the end",
     "changes of several separate bytes at once; the last cipher blocks' padding (its content carries nothing)",
     assumptions=["SHA-256 has no collisions; a garbled AES block is not nearly the original one and does not announce a block of more than 20 bytes by chance"])

prop("C12", "Opening arbitrary bytes ends with an answer",
     "Database::open returns a database or an error - it does not panic or read out of bounds - for any input whatever: any bytes, any header, any ciphertext, and, for someone who knows "
     "the key, any payload and any sequence of blocks.",
     ["inputs", "faults"], "all byte sequences within the bounds at each layer of the format",
     "The tests open good files only. Panics hide in indexing, slicing and conversions that only bad input reaches.",
     [RD, DB, "src/crypto/aes256.rs", XM, "src/io/log_reader.rs"],
     [("input checked before use", RD)],
     "h_any_bytes h_any_header h_any_cipher h_any_payload h_any_blocks h_any_document h_any_gzip",
     "0-14 arbitrary bytes; an arbitrary field of 16 sizes (two in the thorough tier) before nothing, before a cut, or before a good file; ciphertexts of 9 lengths up to 64 arbitrary bytes; payloads of 6 lengths up to 32; 0-2 "
     "arbitrary blocks then a partial one or one of 7 large sizes up to 2^32-1; documents of up to 3 arbitrary bytes; compressed content of 0-2 (3) arbitrary bytes, cut to every length, with one byte arbitrary after 5 lengths or in the trailer, with any one byte changed in 3 ways",
     "exhaustion of memory or time by huge announced sizes or round counts (2^64 rounds are obeyed)")

prop("C13", "Malformed documents end with an answer",
     "For a correctly sealed file, open returns a database or an error, and does not panic, whatever the values, attributes and structure of its document.",
     ["inputs", "faults"], "all values at each kind of place, all attributes, all misplaced, missing, repeated and unclosed elements within the bounds",
     "The tests parse a few bad values of individual types; nothing opens a file with a bad document.",
     [XR, XM],
     [("values parsed without panicking", XM), ("structure followed", XR)],
     "h_bad_value h_bad_attr h_bad_structure h_bad_shape h_bad_time",
     "24 places with any 1 (2) bytes alone or after a valid beginning; 19 places with values of the right kind cut to every length and continued by any byte, or with one of 3 characters of several bytes put in at every position; every attribute value of 1-2 bytes at 5 places; every element of the format in every other, repeated, empty or without its parents; impossible and extreme dates and offsets; one other byte anywhere in a right value",
     "documents nested thousands of levels deep (the reader recurses)")

prop("C16", "Truncated files are refused",
     "No proper prefix of a saved file opens, and neither does a file whose payload or document ends early, even where the end looks like padding.",
     ["crash points", "faults"], "every place where a file can be cut",
     "No test opens a truncated file, the state a crash or a full disk leaves behind.",
     [RD, XR, "src/crypto/aes256.rs"],
     [("header read exactly", RD), ("padding removed", "src/crypto/aes256.rs"), ("final block required", RD), ("document must end", XR)],
     "h_cut_file h_cut_padding h_cut_payload h_bad_end",
     "200 cuts of a saved file, compressed and not, among them every one in the first 20 and the last 20 bytes and 60 at cipher blocks; every cut of a payload of up to 6 blocks with arbitrary plaintext; 60 (all) cuts of a properly sealed payload of one or two blocks; every byte of "
     "a document with all kinds of elements at which it can end; cut compressed documents",
     "")

prop("C14", "Opening does not depend on how the reader delivers the data",
     "Opening a database or key file through any reader gives what the bytes say: how many of them each read call yields and where it is interrupted makes no difference, and an error of the reader is "
     "reported as that error.",
     ["faults", "schedules"], "every place at which the data can be split, interrupted or fail, all sizes of reads within the bounds",
     "The tests read from memory and from small local files, where every read is complete.",
     [RD, DB, "src/io/log_reader.rs", "src/format/kf_reader.rs"],
     [("reads of the header", RD), ("header bytes logged for the hash", "src/io/log_reader.rs"), ("key files read as a whole", "src/format/kf_reader.rs")],
     "h_io_read_short h_io_read_cap h_io_read_saved h_io_read_interrupt h_io_read_error h_io_read_key h_io_read_key_error",
     "a reference file of two blocks and a comment split at every byte of header and beginning of the payload and at a second place in steps of 31 (5) bytes; 23 caps from 1 to 255 bytes per read, also with every "
     "second call interrupted; a saved database with all fields, compressed or not, with 8 caps or 16 splits; an interruption or one of 8 errors before any byte; key files of the three types likewise",
     "readers that return more than was asked for or other violations of the trait; three and more irregular splits")

prop("C15", "Saving does not depend on how the writer accepts the data",
     "Saving a database or key file to any writer stores all of it, however little each write call accepts and whenever it is interrupted; if the writer fails, save reports that error.",
     ["faults", "schedules", "crash points"], "every place at which the data can be split, interrupted or fail, all sizes of writes within the bounds",
     "The tests write to memory, where every write is complete and never fails.",
     [WR, DB, "src/io/log_writer.rs", "src/format/kf_writer.rs"],
     [("header written", WR), ("header bytes logged for the hash", "src/io/log_writer.rs"), ("encrypted payload written", WR), ("key file written", "src/format/kf_writer.rs")],
     "h_io_write_short h_io_write_cap h_io_write_interrupt h_io_write_error h_io_write_key",
     "writes split at every second byte (every byte in the thorough tier) of the header and the beginning of the payload, and at a second place; 16 caps from 1 to 4096 bytes per write, also with every second call "
     "interrupted; an interruption, or one of 4 (9) failures, among them a write of nothing, at such a place or at the end; key files of the three types at every place",
     "errors of flush (save does not flush)")

prop("C17", "Files are encrypted with the key the format prescribes",
     "The encryption key of a saved file is derived from password and key file exactly as KDBX 3.1 prescribes, for every key, seed and number of rounds and with or without AES instructions; a file encrypted "
     "that way by another program opens; after a change of the key the new key is used.",
     ["inputs", "configurations"], "all keys, seeds and initialization vectors",
     "The tests compare the derivation with one or two vectors on whatever processor they run on, and the round trip hides an error made in both directions.",
     ["src/types/composite_key.rs", "src/types/transformed_key.rs", "src/types/master_key.rs", "src/crypto/aes256.rs", WR, RD],
     [("composite key", "src/types/composite_key.rs"), ("key transformation, with and without AES-NI", "src/types/transformed_key.rs"), ("master key", "src/types/master_key.rs")],
     "h_key_composite h_key_saved h_key_rounds h_key_open h_key_change",
     "password only, key file only, both; every password of 2 and 3 (4) bytes of UTF-8 and arbitrary lower-case ones of 7, 31, 64, 119, 300 and 1025; arbitrary keys of 0, 1, 5, 20, 32, 64 and 65 bytes; 0-12 rounds with arbitrary keys, up to 2^20+1 "
     "(2^24) with a concrete one; one arbitrary seed, vector or start bytes at a time; both implementations of AES",
     "more rounds; AES itself (rust-crypto) is taken as given",
     assumptions=["rust-crypto's AES blocks (assembly and portable) are AES-256"])

prop("C18", "Secrets, keys and UUIDs are drawn anew from the system's random source",
     "Every save draws its own master seed, transform seed, initialization vector, stream key and start bytes from the system's random source, no random value serving twice, whatever the history of the database; "
     "new entries and groups get version 4 UUIDs and new key files keys from the same source.",
     ["histories", "inputs"], "all values the random source can yield",
     "The tests compare at most two values. A seed kept from the opened file, used twice, derived from another or partly constant passes.",
     [WR, "src/crypto/random_gen.rs", "src/types/key_file.rs", "src/types/entry_uuid.rs", "src/types/group_uuid.rs"],
     [("secrets drawn in write", WR), ("random bytes", "src/crypto/random_gen.rs"), ("new key files", "src/types/key_file.rs"), ("new_random", "src/types/entry_uuid.rs")],
     "h_fresh_save h_fresh_uuid h_fresh_key",
     "new, opened and repeatedly saved databases; three saves in a row; every value of the random source; every pair of ways to obtain a UUID",
     "the quality of the system's random source")

prop("C19", "Key files survive and are read as other programs write them",
     "A saved key file of each type has the documented form and opens as the same key and type. Any 32 bytes, any 64 hexadecimal digits and XML key files of other programs open as the key they "
     "hold; anything else, to be read or to be written, is refused without a panic.",
     ["inputs", "faults"], "all keys and all contents within the bounds",
     "The tests use one key per type, and no malformed key file.",
     ["src/format/kf_reader.rs", "src/format/kf_writer.rs", "src/types/key_file.rs"],
     [("type decided by size", "src/format/kf_reader.rs"), ("digits decoded", "src/format/kf_reader.rs"), ("three types written", "src/format/kf_writer.rs")],
     "h_keyfile_save h_keyfile_raw h_keyfile_xml h_keyfile_size h_keyfile_bad",
     "keys of 32 arbitrary bytes (for hexadecimal files two arbitrary neighbouring bytes at every place when read), XML keys of 0 to 64 arbitrary bytes whose base64 has no '/'; XML in 7 styles; any byte in each of 64 digits; "
     "8 kinds of malformed files with arbitrary bytes, cuts and versions; 15 sizes of keys saved as each type",
     "XML key files of version 2.0")

prop("C20", "Conversions of colors, icons, obfuscations and string keys are exact",
     "A text is a color exactly when it is '#' and six hexadecimal digits, and means the color they denote; any other text is refused with the documented reason. Every color, icon, obfuscation and string key "
     "is written as KeePass expects and read back as itself; every other number or name is refused or kept verbatim.",
     ["inputs"], "all texts within the bounds, all 32-bit numbers, all colors",
     "The tests convert a handful of values; slicing at character boundaries, signs accepted as digits, a swapped pair of icons or a name taken for another pass.",
     ["src/types/color.rs", "src/types/icon.rs", "src/types/obfuscation.rs", "src/types/string_key.rs"],
     [("from_hex_string, to_hex_string", "src/types/color.rs"), ("from_i32, to_i32", "src/types/icon.rs"), ("from_i32", "src/types/obfuscation.rs"), ("from_string, to_string", "src/types/string_key.rs")],
     "h_conv_color_any h_conv_color_all h_conv_color_back h_conv_number h_conv_icon h_conv_key_name",
     "texts of 0 to 10 bytes with 4 (5) arbitrary neighbouring bytes anywhere; every color; every value of each part in both cases of digits; every 32-bit number; all 69 icons; the five standard names in every "
     "spelling, with any other byte at any place, and with 1-3 arbitrary bytes inserted anywhere",
     "colors of which more than 5 bytes deviate from '#0aF9b3cE1'; the names of keys beyond ASCII case rules")

prop("C23", "Entries, groups and databases hold what was set",
     "The value of a string of an entry is the one set last, under that key only, protected for passwords and plain otherwise unless put into the map otherwise; times, expiry and usage count are stored "
     "in their own fields; new databases, groups and entries have the documented defaults, the present time and their own identifier.",
     ["inputs", "histories"], "all texts within the bounds, all sequences of setters, all identifiers drawn",
     "Each test sets one string of one entry once.",
     [EN, GR, DB, "src/types/times.rs", "src/types/string_value.rs", "src/common.rs"],
     [("getters and setters of strings", EN), ("times", EN + ", " + GR), ("defaults", DB + ", src/common.rs")],
     "h_acc_strings h_acc_keys h_acc_bytes h_acc_times h_acc_new",
     "every sequence of 3 (4) calls of the six setters or changes of the map, every text of 2 bytes of UTF-8 in each, the last possibly empty; every 3 (4) bytes as protected value; every usage count and flag, 256 times per field; every "
     "value of the random source; 36x36 pairs of keys that look alike",
     "longer texts")

prop("C24", "The tree of groups is changed and walked as documented",
     "Adding puts an entry or group at the end; removing takes out the first direct member with that identifier, returns it whole and leaves everything else in order, or changes nothing; walks visit each group "
     "once, the group itself first, in breadth, and see changes made to groups not yet visited.",
     ["histories", "inputs", "programs"], "all trees within the bounds, all identifiers, equal ones included, all histories of additions and removals",
     "The tests use trees of two or three groups with distinct identifiers.",
     [GR],
     [("add_entry, add_group, remove_entry, remove_group", GR), ("Iter, IterMut", GR)],
     "h_tree_iter h_tree_large h_tree_entries h_tree_groups h_tree_history",
     "every tree of up to 5 (6) groups below the root, with different, equal or no identifiers; 300 groups side by side, under one another or both; up to 5 (7) members with arbitrary, possibly equal identifiers; every history of 4 (5) additions and removals with arbitrary identifiers",
     "larger trees")

prop("C25", "Lookups and searches find exactly what matches",
     "get_entry and get_group return the first match of a breadth-first walk and nothing else; find_entries returns exactly the entries with a plain string containing the text whatever the case, find_groups the "
     "groups whose name does, each once and in the order of the walk; protected strings are never searched. The variants for changing find the same, and changes reach the database.",
     ["inputs", "programs"], "all trees within the bounds, all identifiers, all texts and wanted texts within the bounds",
     "The tests search one or two entries for one word; order, duplicates, empty texts, protected strings and deeper groups are not covered.",
     [DB, GR],
     [("find_entries, find_groups and their mutable variants", DB), ("get_entry, get_group and their mutable variants", DB), ("entry_contains_string", DB)],
     "h_find_id h_find_entries h_find_entries_many h_find_groups h_find_unicode h_find_large",
     "every tree of up to 4 (5) groups with 1-2 entries each and arbitrary, possibly equal identifiers; ASCII texts of 4 (6) and wanted texts of 0-3 (0-4) arbitrary characters under each kind of key, plain or protected; "
     "up to 8 (10) entries matching or not in any combination; names of 2 arbitrary characters in up to 4 groups; 12 pairs of texts beyond ASCII; 301 groups with an entry each, 8 of them matching; identifiers different, equal or nil in all of these",
     "longer texts, arbitrary texts beyond ASCII")

prop("C27", "Walks that change groups are memory-safe",
     "Safe code using iter_mut, find_entries_mut and find_groups_mut cannot read or write freed memory, whatever it does to the groups it is given.",
     ["programs"], "all trees within the bounds, kinds and places of changes",
     "The tests change a field of groups visited, one at a time.",
     [GR, DB],
     [("copy of the mutable reference in IterMut::next", GR), ("find_groups_mut", DB)],
     "h_tree_iter_change h_tree_iter_keep h_find_keep",
     "every tree of up to 4 (5) groups below the root, any of them emptied, given a group, replaced or reversed while it is visited; two groups kept from one walk, the first emptied",
     "other programs; the aliasing of references as such (only its effects on memory are checked)")

prop("C28", "What is printed for debugging or as an error holds no secrets",
     "The Debug output of keys, key files, protected values and of entries, groups and databases holding them, and the errors of opening a damaged file, are the same whatever the passwords, keys and "
     "protected values are.",
     ["inputs", "faults"], "all secrets within the bounds",
     "No test looks at what is printed.",
     ["src/types/composite_key.rs", "src/types/key_file.rs", "src/types/string_value.rs", "src/types/binary_value.rs", "src/types/error.rs", XR],
     [("Debug of SecStr-based types", "src/types/composite_key.rs"), ("error texts", "src/types/error.rs, " + XM)],
     "h_print_values h_print_errors h_print_keyfile",
     "two arbitrary secrets of 3 and of 0, 1, 3, 16 or 40 letters as password, key file, protected string or binary, in entries, history, groups and databases, both forms of Debug; 8 kinds of damage to a file with "
     "an arbitrary one-letter secret or one that is not UTF-8; 5 kinds of damage to a key file",
     "plain values (documented as not secret); the one character at which a malformed document or key file is not understood; the place of invalid UTF-8 or base64 inside a value; other kinds of damage")

prop("C29", "Databases survive being opened, edited and saved again and again",
     "Whatever is done to a database in memory between opening and saving, the next opening gives exactly the edited database, also when another program wrote the file; saving leaves the database in memory "
     "unchanged, saving twice stores the same, and unchanged sessions neither add nor lose anything.",
     ["histories", "programs"], "all pairs of edits within the bounds, all texts they put in",
     "The tests save databases just created or just opened, never one that was edited after opening.",
     [DB, WR, RD, XW, XR, GR, EN],
     [("open", DB), ("save", DB + ", " + WR), ("documents", XR + ", " + XW)],
     "h_sess_relay h_sess_edits h_sess_foreign h_sess_same h_sess_many",
     "24 kinds of edits (entries, groups, history, strings, protection, binaries, icons, custom data, header, flags), every one with 2 (24) others after it, across two saves, starting from a saved database, and with "
     "4 (24) others before one save, starting from a foreign file; arbitrary texts of 2 letters in plain places; 6 styles of foreign files; 5 (12) sessions without a change",
     "more edits; other databases to start from")

prop("C30", "Contents of every size are stored and read completely",
     "The size of the document, of its blocks and of its values makes no difference: every number of bytes around the boundaries of cipher blocks, cipher buffers, stream blocks and compression windows is stored "
     "and read back completely.",
     ["inputs", "configurations"], "all sizes within the bounds",
     "The tests store a few small databases; boundaries of 16, 64 and 4096 bytes are hit by chance or not at all.",
     ["src/crypto/aes256.rs", "src/crypto/salsa20.rs", "src/compression/gzip.rs", RD, WR],
     [("buffers of the cipher", "src/crypto/aes256.rs"), ("stream position", "src/crypto/salsa20.rs"), ("blocks", RD + ", " + WR), ("compression", "src/compression/gzip.rs")],
     "h_size_payload h_size_large h_size_stream h_size_blocks h_size_gzip",
     "encrypted payloads of 4096k-17 to 4096k+17 bytes, k up to 2 (4), with arbitrary letters; protected values of 0-66 and 127-129 (0-199) bytes followed by others; documents of 32 (64) consecutive sizes in one, two or "
     "many blocks; compressed documents of 16 (40) sizes up to 20 kB, both compressible and not; one document of more than 1 MiB with a long text, protected value or attachment, one of 1 MiB of compressed content, one of 150 kB (1 MiB) that does not compress (known content)",
     "larger databases")

NOT_APPLICABLE = {
    "C21": dict(
        title="Opening a file uses bounded memory, stack and time",
        statement="Opening a small file needs an amount of memory, stack and time that is bounded by its size: neither announced block sizes, nor round counts, nor compressed content, nor deep nesting exhaust the process.",
        over=["inputs", "faults"], text="all files",
        why="The tests open small well-meant files.",
        files=[RD, XR, "src/types/transformed_key.rs", "src/compression/gzip.rs"],
        mechanism=[{"name": "rounds, block sizes and nesting obeyed as announced", "where": RD + ", " + XR}],
        reason="The quantities concerned are unbounded (2^64 rounds, 4 GiB blocks, any nesting), so every bounded unrolling stops before the defect, and the executed IR has no notion of the native stack's size. "
               "The code is known to obey whatever the file announces."),
    "C22": dict(
        title="Secrets do not stay in freed memory",
        statement="Passwords, keys and protected values are overwritten in memory once the values holding them are dropped.",
        over=["programs", "schedules"], text="all lifetimes of secrets",
        why="No test can look at freed memory.",
        files=["src/types/composite_key.rs", "src/types/string_value.rs"],
        mechanism=[{"name": "SecStr", "where": "src/types/composite_key.rs"}],
        reason="What is left behind is decided by copies and spills the code generator makes after the IR that is executed here; the crate itself makes plain copies of secrets (String arguments, documents), so at "
               "this level there is nothing to decide."),
}
