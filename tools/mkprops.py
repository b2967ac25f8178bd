#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": ["pkg/scte35/" + f if "/" not in f and not f.startswith("main") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CMDS = ["splice_null.go", "splice_schedule.go", "splice_insert.go", "time_signal.go", "bandwidth_reservation.go", "private_command.go"]
DESC = ["avail_descriptor.go", "dtmf_descriptor.go", "segmentation_descriptor.go", "time_descriptor.go", "audio_descriptor.go", "private_descriptor.go"]

prop("C01", "Decoding reads every field of a section where SCTE 35 puts it",
 "For every well-formed binary splice_info_section, decoding succeeds and yields exactly the header, command and descriptor values that the SCTE 35 syntax tables assign to its bits, whatever combination of commands, descriptors, presence flags, loop counts and reserved-bit values it uses. Fields the syntax says are absent (for instance after a cancel indicator) are absent or zero in the result.",
 ["inputs"], "all well-formed splice_info_sections up to the 4095-byte section length",
 "The decoder is a product of ~20 presence flags, loops of 0..255 entries and 33/40/48-bit fields at unaligned offsets; the tests decode a few dozen captured signals and never a cancelled event, a component-mode schedule or an out-of-the-ordinary flag combination.",
 ["splice_info_section.go", *CMDS, *DESC, "splice_command.go", "splice_descriptor.go"],
 [("bit-exact reads in syntax order", "SpliceInfoSection.Decode and each decode method"), ("type dispatch", "NewSpliceCommand, NewSpliceDescriptor")],
 ["SpliceInfoSection.Decode", "exported fields of the decoded value"])

prop("C02", "Encoding writes every field of a value where SCTE 35 puts it",
 "For every encodable signal, encoding yields exactly the bytes the SCTE 35 syntax tables prescribe for its field values: every field at its position and width, every length and count equal to what follows it, every reserved bit set to 1, and a CRC_32 (MPEG-2 polynomial) over everything before it. The result does not depend on how the signal was obtained (constructed, or decoded from binary, JSON or XML), and the library's constructors of commands give values that carry exactly the time they were given.",
 ["inputs"], "all in-range field values of all commands and descriptors, in every combination of optional parts",
 "Tests only re-encode captured signals; lengths are computed by separate code from the writes they describe, so each optional part is a chance for the two to disagree that no fixed sample covers.",
 ["splice_info_section.go", *CMDS, *DESC, "crc_32.go"],
 [("length/sectionLength/descriptorLoopLength computed separately from the writes", "each length method"), ("CRC over the flushed prefix", "SpliceInfoSection.Encode, calculateCRC32")],
 ["SpliceInfoSection.Encode"])

prop("C03", "Binary round trip: values and canonical bytes survive unchanged",
 "Decoding the encoding of any canonical signal gives back an equal signal, and re-encoding what was decoded from a canonical section gives back the same bytes, alignment stuffing included. For an arbitrary decodable section, re-encoding is a normalisation: the result decodes without error to the same field values.",
 ["inputs"], "all encodable signals in canonical form, all decodable sections",
 "Encoder and decoder are written separately field by field; a test only shows that one captured signal survives, not that the two functions are inverse to each other for all values.",
 ["splice_info_section.go", *CMDS, *DESC, "segmentation_upid.go"],
 [("mirrored encode/decode methods", "every command and descriptor"), ("retained alignment_stuffing", "SpliceInfoSection.alignmentStuffing")],
 ["SpliceInfoSection.Encode then Decode", "Decode then Encode"])

prop("C04", "Decoding any byte string terminates with a value or a classified error",
 "For every byte string, base64 string or hex string, decoding neither panics nor hangs, always returns a usable signal, and reports failure only through one of the documented error classes (buffer overflow, buffer underflow, CRC_32 not valid, unsupported encoding). The returned signal, even after an error, can be printed, measured, marshalled and encoded without panicking.",
 ["inputs"], "all byte strings, including truncated, extended, bit-flipped and random ones, and all strings given to the base64 and hex entry points",
 "The tests hold a handful of damaged signals; the danger is in length and count fields that disagree with the data, of which there are combinatorially many.",
 ["scte35.go", "splice_info_section.go", *CMDS, *DESC, "segmentation_upid.go"],
 [("bounded reader returning zero bits past the end", "iobit.Reader"), ("readerError classification", "readerError"), ("fallback types", "NewSpliceCommand, NewSpliceDescriptor")],
 ["Decode", "DecodeBase64", "DecodeHex", "observers of the result"])

prop("C05", "Damage is detected: success implies consistent framing and a valid CRC",
 "Decoding succeeds if and only if every section, command and descriptor is exactly consumed and the CRC_32 over the whole section is valid; in particular, any change confined to 32 consecutive bits of a valid section is reported as an error. The error is an overflow if the syntax needs more bytes than its container holds, an underflow if bytes are left over, and the CRC error only for a section whose structure is intact.",
 ["inputs", "fault_sequences"], "all byte strings; all corruptions, truncations and extensions of all valid sections",
 "A test flips chosen bits of chosen signals; the guarantee is about every bit position of every signal and about the classification of the resulting error.",
 ["splice_info_section.go", "crc_32.go", "scte35.go", *CMDS, *DESC],
 [("CRC verification over the full buffer", "verifyCRC32"), ("exact-consumption check in each structure", "readerError"), ("structural errors take precedence", "SpliceInfoSection.Decode")],
 ["error returned by Decode"])

prop("C06", "JSON round trip preserves the signal",
 "Marshalling any canonical signal to JSON and unmarshalling it into a fresh or used value yields a signal that encodes to the same section (alignment stuffing aside, which JSON does not carry). Every field, including zero values next to non-zero ones, 33- to 48-bit integers, instants, private bytes and UPIDs, arrives unchanged and on the same command or descriptor type.",
 ["inputs"], "all canonical signals; all commands, descriptors, optional parts and boundary values",
 "omitempty tags, pointers, polymorphic fields and inferred types interact per field and per value; the tests compare a few documents.",
 ["splice_info_section.go", "splice_descriptor.go", "segmentation_upid.go", "scte35.go", *CMDS, *DESC],
 [("type discriminators set before marshalling", "SpliceInfoSection.MarshalJSON"), ("two-pass polymorphic unmarshalling", "iSIS.SpliceCommand, SpliceDescriptors.UnmarshalJSON")],
 ["json.Marshal", "json.Unmarshal"])

prop("C07", "XML round trip preserves the signal",
 "Marshalling any canonical signal whose text is representable in XML and unmarshalling it into a fresh or used value yields a signal that encodes to the same section, with its command, the order of its descriptors and its preRollMilliSeconds kept. (Alignment stuffing, and whitespace around a UPID, which the schema defines as a token, are not carried by XML.)",
 ["inputs"], "all canonical signals whose text consists of XML characters",
 "Attributes with omitempty, optional elements, repeated polymorphic elements and namespaces interact per field; the tests compare a few documents.",
 ["splice_info_section.go", "splice_descriptor.go", "segmentation_upid.go", *CMDS, *DESC],
 [("per-element command fields", "iSIS"), ("element-name dispatch", "SpliceDescriptors.UnmarshalXML")],
 ["xml.Marshal", "xml.Unmarshal"])

prop("C08", "Base64, hex and raw bytes are three spellings of the same section",
 "For every byte string, decoding its standard base64 text, its hex text in either letter case and with or without a leading 0x, and the bytes themselves give equal signals and the same error; text that is not valid in its encoding is rejected as an unsupported encoding with an empty signal. For every encodable signal, the base64 and hex output decode to exactly the encoded bytes, and both are empty if the signal cannot be encoded.",
 ["inputs"], "all byte strings and all signals",
 "Tests use matching captured strings; agreement for all inputs and the rejection of near-valid text (padding, odd length, foreign alphabet) is a universally quantified statement.",
 ["scte35.go", "splice_info_section.go"],
 [("thin wrappers over one decoder", "DecodeBase64, DecodeHex"), ("thin wrappers over one encoder", "SpliceInfoSection.Base64, SpliceInfoSection.Hex")],
 ["DecodeBase64", "DecodeHex", "Base64", "Hex"])

prop("C09", "Observing a signal never changes it",
 "Encoding, marshalling, printing, measuring or querying a signal leaves it as it was: any sequence of these calls in any order gives each call the same result it would have given alone. Buffers and strings returned earlier are not changed by later calls, and writing to one changes no signal. Two signals with the same field values (a nil and an empty list count as the same) are encoded and printed alike, whatever was observed before.",
 ["histories", "inputs"], "all sequences of read-only calls on all signals",
 "Tests call one observer once on a fresh value; interference needs particular orders (table then JSON, encode then XML) and repeated calls.",
 ["splice_info_section.go", "segmentation_upid.go", "segmentation_descriptor.go", "table.go", "scte35.go"],
 [("observers write nothing but the JSON type discriminator, which is a constant of the type", "Type and Tag methods")],
 ["all exported observers of SpliceInfoSection, commands, descriptors and UPIDs"],
 [("JSONType", "discriminator cached on commands and descriptors", "JSONType fields")])

prop("C10", "A decode depends on its input alone, not on history or the caller's buffer",
 "Decoding or unmarshalling into a value that already holds another signal, after any history of successful and failed calls, gives the same result as into a fresh value. Once decoding has returned, the signal is independent of the input buffer, which is itself left unmodified, and of any other signal: copies of the value that the receiver held before stay as they were.",
 ["histories", "inputs"], "all sequences of decodes, unmarshals, buffer reuses and observers over several values and buffers",
 "Tests always decode into fresh values from immutable literals; stale optional fields and aliasing appear only with reuse in particular orders.",
 ["splice_info_section.go", "private_command.go", "private_descriptor.go", "splice_descriptor.go"],
 [("receiver reset", "Decode, UnmarshalJSON, UnmarshalXML"), ("cloned byte fields", "private bytes and alignment stuffing")],
 ["Decode, json.Unmarshal and xml.Unmarshal into reused values"],
 [("receiver", "the signal previously held", "SpliceInfoSection"), ("buffer", "caller-owned bytes", "argument of Decode")])

prop("C11", "Independent signals can be processed concurrently",
 "Goroutines that each work on their own signals may decode, encode, marshal, unmarshal and print at the same time; every call returns what it would have returned alone, and there is no data race between them.",
 ["schedules"], "all interleavings of calls on distinct signals",
 "The tests are sequential; shared package-level state (tables, scratch buffers, caches, loggers) only shows under particular interleavings.",
 ["scte35.go", "crc_32.go", "splice_info_section.go", "segmentation_upid.go", "table.go"],
 [("package state is read-only after initialisation", "crc32Table, Logger")],
 ["results of concurrent calls", "race detector"],
 [("package-level variables", "read-only tables and the logger", "crc32Table, Logger")])

prop("C12", "Decoding is best effort, and legacy command lengths are understood",
 "When a section is damaged, the returned signal still holds everything that precedes the damage: the header, the command if it is intact, and every intact descriptor, in order and in place even when another descriptor is not. A splice_command_length of 0xFFF is decoded as the legacy form, in which the command's own syntax determines where the descriptor loop starts.",
 ["inputs", "fault_sequences"], "all sections with damage in any one place, and all legacy sections",
 "Tests check error values for a few damaged signals and one or two legacy ones, not what survives for every kind and place of damage.",
 ["splice_info_section.go", "splice_descriptor.go", "splice_command.go", "scte35.go"],
 [("descriptor errors do not stop the loop", "decodeSpliceDescriptors"), ("legacy branch", "SpliceInfoSection.Decode")],
 ["signal returned next to an error", "Decode of 0xFFF sections"])

prop("C13", "Private and unknown structures pass through intact",
 "A command of unknown type is kept as a private command and a descriptor with an unknown tag or a foreign identifier as a private descriptor, with tag, identifier and every byte preserved through re-encoding, JSON and XML. Neither shifts, hides or alters any neighbouring structure.",
 ["inputs"], "all command types, descriptor tags, identifiers and payloads, between all neighbours",
 "Tests contain one or two private structures; forward compatibility is about all 256 types and tags, 2^32 identifiers and payload lengths 0..251.",
 ["private_command.go", "private_descriptor.go", "splice_command.go", "splice_descriptor.go", "scte35.go"],
 [("default branch of the dispatchers", "NewSpliceCommand, NewSpliceDescriptor"), ("hex text of bytes", "Bytes.MarshalText, Bytes.UnmarshalText")],
 ["PrivateCommand", "PrivateDescriptor"])

prop("C14", "UPIDs convert between bytes and text without loss",
 "For every segmentation_upid_type and content, the decoded UPID's type, format, format identifier and text are those SCTE 35 prescribes (Latin-1 text, canonical EIDR, base64 ISAN and MPU, unsigned TI), and encoding it gives back the same bytes. A MID() yields its member UPIDs in order with their own types, and several UPIDs are written as one MID().",
 ["inputs"], "all UPID types 0..255, all contents of the lengths each type allows, all MID() lists",
 "Tests cover one sample per type; conversions have value-dependent branches (slash bytes, leading zeros, non-ASCII, empty members).",
 ["segmentation_upid.go", "segmentation_descriptor.go"],
 [("NewSegmentationUPID and its inverse", "NewSegmentationUPID, valueBytes"), ("MID loop", "SegmentationDescriptor.decode, SegmentationDescriptor.encode")],
 ["SegmentationDescriptor.SegmentationUPIDs", "NewSegmentationUPID", "ASCIIValue", "Name"])

prop("C15", "Tick, duration and GPS time conversions are exact over their whole range",
 "Converting any 33- or 40-bit tick count to a duration gives the largest whole number of nanoseconds not exceeding it, converting back gives the same tick count, and any duration converts to the smallest tick count covering it. Every 32-bit utc_splice_time maps to the instant that many seconds after 1980-01-06T00:00:00Z and back (a later fraction of the second and the time zone do not count), and a signal's duration is its break duration, or else the sum of its segmentation durations.",
 ["inputs"], "all tick counts below 2^40, all durations they cover, all 2^32 splice times",
 "Tests check a handful of values; rounding and wrap-around errors sit at isolated or large values.",
 ["scte35.go", "splice_info_section.go"],
 [("integer arithmetic", "DurationToTicks, TicksToDuration"), ("64-bit epoch shift", "NewUTCSpliceTime, UTCSpliceTime.GPSSeconds"), ("precedence of the break duration", "SpliceInfoSection.Duration")],
 ["DurationToTicks", "TicksToDuration", "NewUTCSpliceTime", "GPSSeconds", "Duration"])

prop("C16", "The printed table shows exactly the signal's content",
 "The tabular rendering of any signal lists, in syntax order and with the given prefix and indent on every line, each field that is present in the section with its value, and no field that is not. Derived rows (lengths, counts, flags, names) agree with the encoded section, and rendering is deterministic.",
 ["inputs", "configurations"], "all signals, prefixes and indents",
 "Tests compare the full text of one or two signals; rows depend on every flag and list length.",
 ["table.go", "splice_info_section.go", *CMDS, *DESC],
 [("one row per field", "writeTo methods"), ("value rendering", "valueString")],
 ["SpliceInfoSection.Table"])

prop("C17", "The command line tools say what the library says",
 "The decode command prints, for every base64 or 0x-prefixed hex argument and each output format, exactly the library's rendering of the best-effort signal followed by the error if there is one. The encode command turns every XML or JSON document given as argument or on standard input into the library's base64 and hex of that document, and reports an error for anything else.",
 ["inputs", "configurations"], "all signals and documents, all output formats, argument or standard input",
 "There are no tests of the commands at all.",
 ["cmd/decode.go", "cmd/encode.go", "cmd/scte35.go", "main.go"],
 [("format detection", "cmd decode and encode"), ("stdin handling", "cmd encode")],
 ["standard output and standard error of the built binary"])

prop("C18", "A signal that does not fit the syntax is refused, never mis-framed",
 "Encoding a signal whose lists or payloads exceed the count and length fields of the syntax, or that has no command, returns an error instead of a section. Whenever encoding succeeds, the bytes decode without error, and the total length, section_length, splice_command_length, descriptor lengths and counts all agree.",
 ["inputs"], "all constructible signals, including list lengths around every count and length limit",
 "Tests never exceed a limit; the limits (3, 4, 8, 12 bits) interact through nested lengths.",
 ["splice_info_section.go", "splice_insert.go", "splice_schedule.go", "dtmf_descriptor.go", "audio_descriptor.go", "segmentation_descriptor.go", "private_command.go", "private_descriptor.go"],
 [("limit checks before writing", "Encode and encode methods"), ("writer overflow and flush errors", "iobit.Writer")],
 ["SpliceInfoSection.Encode", "Base64", "Hex"])

prop("C19", "Unmarshalling any JSON or XML document is total and applies the defaults",
 "Unmarshalling any document either returns an error or a usable signal, and never panics; malformed commands or descriptors, values of the wrong type or range and unknown XML descriptors are errors rather than silently dropped data. Attributes and keys may come in any order, and whitespace between elements or JSON tokens and unknown keys are ignored, absent optional ones take their documented default (a missing sapType is 'not specified', every other missing number is zero, a missing descriptor list is empty).",
 ["inputs"], "all JSON and XML documents, in particular every single omission, reordering, retyping or duplication of a valid one",
 "Tests feed a few valid documents; the statement is about all mutations of documents.",
 ["splice_info_section.go", "splice_descriptor.go", "segmentation_upid.go", "scte35.go"],
 [("intermediate struct with defaults", "iSIS"), ("errors are propagated", "iSIS.SpliceCommand, SpliceDescriptors.UnmarshalJSON, SpliceDescriptors.UnmarshalXML")],
 ["json.Unmarshal", "xml.Unmarshal"])

prop("C20", "XML and JSON documents name every field as documented",
 "The JSON and XML produced for any signal contain, under the documented element, attribute and key names, exactly the values of the signal's fields: XML in the SCTE 35 namespace with one element per command, descriptor, component and UPID in order, JSON with a numeric type discriminator on every command and descriptor. Fields are left out only where the document format defines the default that restores them.",
 ["inputs"], "all signals",
 "Tests compare a few full documents; a renamed, misplaced or conditionally dropped field shows only for signals using it.",
 ["splice_info_section.go", *CMDS, *DESC, "segmentation_upid.go", "delivery_restrictions.go", "encrypted_packet.go", "splice_time.go"],
 [("struct tags", "every exported struct"), ("hand-written top-level map", "SpliceInfoSection.MarshalJSON")],
 ["json.Marshal", "xml.Marshal"])

prop("C21", "Derived flags, names and identifiers agree with the signal",
 "For every signal, the presence flags, lengths, identifier strings and human-readable names a signal reports agree with its fields and with the bits of its encoding: flags with presence bits, lengths with length fields, names with the SCTE 35 code tables for every code, and 'unknown' for codes that have none.",
 ["inputs"], "all signals; all 256 codes of each code table",
 "Tests sample a few names; a table slip affects one code of 256.",
 ["splice_info_section.go", "splice_insert.go", "splice_schedule.go", "segmentation_descriptor.go", "segmentation_upid.go", "private_command.go", "private_descriptor.go", "encrypted_packet.go", "delivery_restrictions.go"],
 [("presence derived from pointers and list lengths", "Flag methods"), ("code tables", "Name methods")],
 ["exported flag, length, name and identifier accessors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
