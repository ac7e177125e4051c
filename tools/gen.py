#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TAGS = ["parse/tags/packets.go", "parse/tags/tags.go"] + ["parse/tags/tag%02d.go" % i for i in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20)] + ["parse/tags/tagPrivate.go", "parse/tags/tagUnknown.go"]
SUBS = ["parse/tags/subs.go", "parse/tags/subParser.go", "parse/tags/subReserved.go"] + ["parse/tags/sub%02d.go" % i for i in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38)]
KEYS = ["parse/tags/pubkey.go", "parse/tags/seckey.go"] + ["parse/pubkey/%s.go" % n for n in ("parse_pub", "parse_secenc", "parse_secplain", "parse_ses", "parse_sig", "pubkey")]
def m(name, where): return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, state=state))

prop("C01", "No input crashes the dump or makes it run forever",
 "Whatever octets are given as input and whatever output options are set, the dump ends with a result or an error; it never panics, never reads outside the data it was given and never loops without consuming input.",
 ["inputs", "configurations"], "for every input (any octets, any packet types, algorithms, versions, lengths and truncation points) and every setting of the options",
 "The tests parse a few dozen well-formed keys and messages; a crash needs a length, count or version octet that no well-formed sample contains, in any of some 60 packet and subpacket parsers.",
 TAGS + SUBS + KEYS + ["parse/parser.go", "parse/reader/reader.go", "parse/s2k/s2k.go", "parse/values/mpi.go", "parse/values/ecc.go"],
 [m("Reader bounds checks", "parse/reader/reader.go"), m("subpacket walk", "parse/tags/subs.go"), m("packet loop", "parse/parser.go")],
 ["panic, time-out, or result of the parse"])

prop("C02", "Truncated or malformed packets are errors, well-formed ones are not",
 "A packet or subpacket that ends inside a field its format requires, or announces more octets than are there, makes the dump report an error; data that is well-formed according to RFC 4880 (and the supported part of 4880bis), including unknown algorithms, versions and types, is never rejected. No such error is swallowed by an enclosing packet or subpacket.",
 ["inputs"], "for every packet type, version and algorithm and every point at which the data can be cut off or a length can exceed what is there",
 "Tests feed complete samples and a handful of truncated ones; each required field of each parser is a separate place where an error can be dropped or a valid case refused.",
 TAGS + SUBS + KEYS + ["parse/s2k/s2k.go", "parse/values/mpi.go", "parse/values/datetime.go", "parse/values/expire.go", "parse/values/keyid.go"],
 [m("every read checks its error", "parse/tags/*.go"), m("errors wrapped upward", "parse/parser.go")], ["error of the parse"])

prop("C03", "Every packet of the input is shown once, in order, with its type and size",
 "The result has one top-level item per packet of the input, in the order of the input, for old and new header formats and all length encodings (one, two, four octets, indeterminate, partial); each names the packet type and states the number of octets of its body. When a packet cannot be read the error is reported and the items of the packets before it are kept.",
 ["inputs"], "for every packet sequence, header format, length encoding and cut-off point within the bounds",
 "Tests use samples as written by GnuPG, which hardly mix header formats, length encodings and truncations.",
 ["parse/parser.go", "parse/tags/packets.go", "parse/tags/tags.go", "parse/values/tagid.go", "parse/result/result.go"],
 [m("packet loop", "parse/parser.go"), m("dispatch by tag", "parse/tags/packets.go")], ["top-level items and error of the parse"])

prop("C04", "No octets of a packet disappear: leftover and opaque data is accounted for",
 "Data a packet or subpacket carries beyond or instead of what the format defines (unknown versions, unknown algorithms, unknown types, trailing octets, encrypted or opaque payload) is shown as an item with its exact number of octets, and, where a dump is asked for, exactly those octets. The size stated for a subpacket and its content is the size of the data it covers.",
 ["inputs", "configurations"], "for every packet type, version, algorithm and number of extra octets within the bounds, and every setting of the options",
 "An off-by-one in an offset, or a forgotten remainder, shows only with inputs that have extra octets in that very packet; samples have none.",
 TAGS + SUBS + KEYS + ["parse/values/dump.go", "parse/reader/reader.go"],
 [m("remainder shown", "parse/values/dump.go"), m("Rest2Raw and friends", "parse/values/msgs.go, parse/tags/*.go")], ["items with octet counts and dumps"])

prop("C05", "Key IDs, fingerprints, salts, IVs, digests and counts are shown exactly",
 "Every identifier or octet string a packet carries (key ID, fingerprint and key version, serial number, salt, initialization vector, leading hash octets, MDC and other digests) is shown with exactly the octets of the input, all digits included, and the decoded iteration count and AEAD chunk size are those the format defines for the coded octet.",
 ["inputs"], "for all values of the fields, including leading zeros, and all encoded counts",
 "Tests compare a few sample values; leading zero octets, large counts and every algorithm's IV length are not among them.",
 ["parse/values/keyid.go", "parse/s2k/s2k.go", "parse/tags/tag20.go", "parse/tags/tag19.go", "parse/tags/tag03.go", "parse/tags/sub12.go", "parse/tags/sub16.go", "parse/tags/sub33.go", "parse/tags/sub35.go", "parse/values/symid.go", "parse/values/aeadid.go"],
 [m("hexadecimal forms", "parse/values/keyid.go, parse/values/dump.go"), m("IV length of an algorithm", "parse/values/symid.go, parse/values/aeadid.go"), m("count decoding", "parse/s2k/s2k.go")], ["item values and dumps"])

prop("C06", "Algorithm-specific numbers are shown with the right name, bit length and content",
 "For every public-key algorithm, the numbers of a public key, secret key, signature and encrypted session key are shown in the order and under the names the format gives them, each with the bit length stated in the data and, when asked for, exactly its octets; an algorithm that is not known is shown as one block with its octet count.",
 ["inputs", "configurations"], "for every algorithm, every stated bit length and every content within the bounds",
 "Samples cover some algorithms with numbers of usual sizes; zero-length numbers, bit lengths that are not multiples of eight and the less common algorithms are not tested.",
 KEYS + ["parse/values/mpi.go", "parse/values/ecc.go"],
 [m("number reading", "parse/values/mpi.go"), m("per-algorithm fields", "parse/pubkey/*.go")], ["items of the key material"])

prop("C07", "Assigned numbers are named correctly for all values",
 "Each packet type, subpacket type, version, public-key, symmetric, hash, compression, AEAD and string-to-key algorithm, signature type, literal format, revocation reason and elliptic curve is shown under the name that RFC 4880, 5581, 6637 and 4880bis assign to its number, together with the number; private and unassigned values are shown as such and never under another value's name.",
 ["inputs"], "for all 256 values of each number (and all octet strings of a curve identifier within the bounds)",
 "Tests list some values; a wrong or shifted table entry for a value that is not listed goes unnoticed.",
 ["parse/values/" + f for f in ("pubid.go", "symid.go", "hashid.go", "compid.go", "aeadid.go", "s2kid.go", "sigid.go", "subpacketid.go", "tagid.go", "ecc.go", "version.go", "literal.go")] + ["parse/tags/sub29.go"],
 [m("name tables", "parse/values/*.go")], ["names and values of items"])

prop("C08", "Contents are dumped exactly when the option for them is set",
 "The octets of multi-precision integers, marker packets, literal data, private packets and attested certifications are shown when and only when their option (or the debug option, which implies all of them) is set, and the octets of everything else only as the debug option or the item's own format demands; options change neither the items shown nor their names, only their dumps.",
 ["inputs", "configurations"], "for all combinations of the options and every packet and subpacket type with any content within the bounds",
 "There are 2^7 combinations of options for each of some 60 parsers; tests use a few fixed combinations.",
 ["parse/context/context.go", "parse/context/options.go", "parse/values/dump.go"] + TAGS + SUBS,
 [m("option table and implications", "parse/context/context.go"), m("dump flag of every item", "parse/tags/*.go")], ["dumps of items"])

prop("C09", "Times and expiration periods are exact over their whole range",
 "Each 4-octet time is shown as the RFC 3339 time for that number of seconds since 1970, as unsigned number up to 2106, in UTC when asked; a validity period is shown as the exact number of days and, when its creation time is known, with the date creation time plus period, also beyond 2106 and without wrapping around.",
 ["inputs", "configurations"], "for all 2^32 values of a time and of a period, in every packet and subpacket that carries one",
 "Tests have times between 1998 and 2020; values with the top bit set and sums beyond 32 bits do not occur.",
 ["parse/values/datetime.go", "parse/values/expire.go", "parse/tags/sub02.go", "parse/tags/sub03.go", "parse/tags/sub09.go", "parse/tags/tag11.go", "parse/tags/pubkey.go", "parse/tags/tag02.go"],
 [m("time decoding", "parse/values/datetime.go"), m("period", "parse/values/expire.go")], ["values and notes of time items"])

prop("C10", "What one packet announces is applied to the right following packets",
 "Encrypted data is described according to the session key packet that precedes it (public-key, passphrase, or none) and only that; key and signature expiration dates are computed from the creation time of the key or of the very signature they belong to, never from another signature, an embedded signature or another key.",
 ["histories", "inputs"], "for every sequence of packets within the bounds and all times in them",
 "It depends on the order and combination of packets; tests have a few fixed sequences with one key each.",
 ["parse/context/context.go", "parse/context/symalgmode.go", "parse/tags/tag01.go", "parse/tags/tag02.go", "parse/tags/tag03.go", "parse/tags/tag09.go", "parse/tags/tag18.go", "parse/tags/sub02.go", "parse/tags/sub03.go", "parse/tags/sub09.go", "parse/tags/sub32.go"],
 [m("state shared between packets", "parse/context/context.go")], ["items of later packets"],
 state=[{"name": "session key mode, key creation time, signature creation time", "meaning": "what earlier packets announced", "where": "parse/context/context.go"}])

prop("C11", "ASCII armor: same result as binary, found in text, demanded when asked",
 "An armored block gives the same result as the binary data it encodes, wherever it stands in a text, with either line ending and with or without headers; of a cleartext signed message the signature is shown. When armor is demanded an input without a complete armored block is an error, and without that option binary data is parsed as it is, completely. Of several blocks the first is shown; contents that do not match the checksum of the block are an error.",
 ["inputs", "configurations"], "for any text around the block, any contents, both line endings and every cut-off point, within the bounds",
 "Tests have whole armored files; what stands before or after, cut-off blocks and binary data that looks like lines of text are not tried.",
 ["parse/parse.go", "armtext/armtext.go", "parse/parser.go"],
 [m("armor detection", "armtext/armtext.go"), m("fallback to binary", "parse/parse.go")], ["result and error of the parse"])

prop("C12", "Text and JSON output show exactly the parsed items",
 "The text form has one line per item, in order, indented by its depth with the chosen indent, with name, value and note, followed by its dump; the JSON form holds the same tree with the same strings, is valid JSON for any content, leaves out empty fields and is indented as asked. Both are complete for any depth, and absent items add nothing.",
 ["inputs", "configurations"], "for all trees of the bounded shapes, every combination of present and empty fields, all strings within the bounds and all indents used",
 "Tests render a few samples; combinations of empty and non-empty value, note, dump and children are not covered.",
 ["parse/result/result.go"], [m("text rendering", "parse/result/result.go"), m("JSON rendering", "parse/result/result.go")], ["rendered output"])

prop("C15", "Reading from a packet body never leaves it and never loses its place",
 "Any sequence of reads, seeks, copies and dumps over a packet body returns exactly the octets at the current position, advances by exactly what was returned and refuses what would leave the body without moving (nor does a copy that fails move it); position, remaining count and size always agree, and dumping the rest does not move the position.",
 ["histories", "inputs"], "for every sequence of operations within the bounds with any 64-bit arguments over any body within the bounds",
 "Tests call each operation once with small positive arguments; negative, huge and overflowing arguments and sequences of operations are not covered.",
 ["parse/reader/reader.go", "parse/values/dump.go"], [m("bounds checks", "parse/reader/reader.go")], ["return values of the operations"],
 state=[{"name": "offset", "meaning": "next octet to read", "where": "parse/reader/reader.go"}])

prop("C16", "The result depends on the input alone",
 "The same input and options give the same result however the input is handed over (any division into pieces, end of data signalled with or after the last piece), whatever was parsed before in the same process and in whatever order maps are walked; the input is not modified, and an input that cannot be read to its end is reported as an error.",
 ["histories", "schedules", "fault_sequences", "inputs"], "for every division into pieces, point of a read error, earlier parse and map order within the bounds",
 "Tests read from files and buffers at once and compare single runs; map order and short reads vary without their control.",
 ["parse/parse.go", "parse/parser.go", "armtext/armtext.go", "parse/context/context.go", "parse/tags/sub27.go"], [m("input buffering", "parse/parse.go"), m("state per run", "parse/context/context.go")], ["result and error of the parse"])

prop("C17", "Secret keys are shown according to their version and protection",
 "For version 3, 4 and 5 secret keys and subkeys, unprotected or protected in any of the defined ways (string-to-key usage 253, 254, 255 or a plain algorithm number), the usage, algorithms, string-to-key specifier with salt and count, IV of the algorithm's length, optional-field counts and the encrypted or plain key material with checksum are shown as the format lays them out, including private-use specifiers without an IV.",
 ["inputs", "configurations"], "for all usage octets, algorithms, specifier types and contents within the bounds",
 "Samples have GnuPG's standard protection; other usage octets, versions and algorithms need keys that no sample has.",
 ["parse/tags/seckey.go", "parse/tags/tag05.go", "parse/tags/tag07.go", "parse/s2k/s2k.go", "parse/pubkey/parse_secenc.go", "parse/pubkey/parse_secplain.go", "parse/values/s2kid.go", "parse/values/symid.go"],
 [m("protection layout", "parse/tags/seckey.go"), m("string-to-key specifier", "parse/s2k/s2k.go")], ["items of secret key packets"])

prop("C18", "Compressed packets show the packets inside them",
 "A compressed data packet (ZIP, ZLIB, BZip2 or stored) shows its algorithm and, nested in it, all packets inside in order, each shown as it would be by itself; data that cannot be decompressed or is malformed inside is an error, and with an unknown algorithm the data is shown as it stands.",
 ["inputs"], "for all algorithm numbers and all contents of the compressed data within the bounds",
 "Tests have one or two compressed samples; errors in the middle of the data, several packets inside, and other algorithms are not covered.",
 ["parse/tags/Tag08.go"], [m("decompression", "parse/tags/Tag08.go"), m("nested packet loop", "parse/tags/Tag08.go")], ["items nested in the compressed packet, error of the parse"],
 note="; the decompressors of the Go library are replaced by stand-ins under the engine (a stream stands for what it decompresses to, with read errors as a choice), and the real ones run in the native replays")

prop("C19", "Signature and user attribute subpackets are shown field by field",
 "Every subpacket in the hashed and unhashed area of a signature, in an embedded signature and in a user attribute is shown once, in order, in its area, with its type, its criticality, its size where stated and the fields its type defines (flags, preferences, notations, revocation data, fingerprints, texts, times, embedded signatures, image headers), for every form of subpacket length.",
 ["inputs", "configurations"], "for every subpacket type, critical bit, length form and content within the bounds",
 "Samples contain the common subpackets with usual contents; flag bits, empty and overlong contents, rare types and long length forms are not covered.",
 SUBS + ["parse/tags/tag02.go", "parse/tags/tag17.go", "parse/values/subpacketid.go"], [m("subpacket walk", "parse/tags/subs.go"), m("dispatch by type", "parse/tags/subParser.go")], ["items of subpackets"])

prop("C20", "Text fields are shown faithfully and cannot smuggle control characters",
 "A text field (user ID, file name, URI, regular expression, notation, reason, signer) that is valid UTF-8 is shown unchanged except that each control character is shown as its code point; invalid UTF-8 is never shown as text but marked invalid with its octets, and an empty text is shown as empty.",
 ["inputs"], "for all octet strings within the bounds, in each packet and subpacket that carries text",
 "Tests have ASCII names; control characters, invalid, overlong and boundary UTF-8 sequences are not covered.",
 ["parse/values/literal.go", "parse/values/misc.go", "parse/tags/tag13.go", "parse/tags/tag11.go", "parse/tags/sub28.go", "parse/tags/sub06.go", "parse/tags/sub20.go", "parse/tags/sub24.go", "parse/tags/sub26.go", "parse/tags/sub29.go"],
 [m("text form", "parse/values/literal.go"), m("control characters", "parse/values/misc.go")], ["values, notes and dumps of text items"])

NA = []
exec(open(os.path.join(root, "tools", "more.py")).read()) if os.path.exists(os.path.join(root, "tools", "more.py")) else None

P.sort(key=lambda p: p["id"])
for p in P:
    fs = [f for f in p["files"] if not os.path.exists("/repo/" + f)]
    assert not fs, fs
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ") + 1
    assert n <= 4, (p["id"], n)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]: a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
na = {x["property"] for x in NA}
M = {"version": 1, "setup_cmd": "bash ./setup.sh",
 "checks": [{"property": p["id"], "quick_cmd": "bash ./check.sh %s quick" % p["id"], "thorough_cmd": "bash ./check.sh %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
   "technique": "symbolic execution of the program's SSA with an SMT solver (z3), against an independent reference; counterexamples replayed on the native build",
   "level": "model_checking",
   "level_note": "Every path of the harness runs through the real code is explored and every assertion decided by the solver for all values within the bounds stated in the evidence (sizes, counts, representative algorithms); assumes the engine's semantics of Go SSA, checked by replaying sampled paths on the compiled code" + p["note"] + "."} for p in P if p["id"] not in na],
 "not_applicable": NA,
 "notes": "check.sh builds the engine from /verif/engine when it is missing, loads /repo's current source as SSA and builds the native replay binary from it on every run."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1); f.write("\n")
