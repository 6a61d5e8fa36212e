#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
BV = "jpylyzer/boxvalidator.py"
JP = "jpylyzer/jpylyzer.py"
ET = "jpylyzer/etpatch.py"
BC = "jpylyzer/byteconv.py"
MX = "jpylyzer/mix.py"

TESTS = ("The repository's tests only start the tool on the repository's own source tree "
         "(no JPEG 2000 file among the inputs whose result is inspected), ")


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


API = "Element returned by checkOneFile()"
CLI = "stdout/exit status of python -m jpylyzer"

prop("C01", "Analysis is total: any bytes, any options, always a complete report",
     "For every regular readable file, whatever its bytes, and for every combination of validation format and "
     "options, the analysis finishes and returns one complete report: file information, analysis status, verdict, "
     "tests, properties and warnings. The status says the analysis succeeded and the verdict is either True or False; "
     "no content ever leads to an exception, an internal-error report or an endless loop.",
     ["inputs", "configurations"],
     "all byte strings (conforming, mutated, truncated, spliced, random, empty) x 4 formats x verbose/packetmarkers/nullxml/mix",
     TESTS + "so no corrupt box, marker or length ever reaches the parser; totality is a statement over all byte strings.",
     [BV, BC, JP, MX],
     [("bogus value on short reads", BC + ":_doConv"), ("loop exits on undecodable lengths", BV + ":validate_tilePart"),
      ("catch-all", JP + ":checkOneFile")], [API])

prop("C02", "The verdict is exactly the conjunction of the reported test outcomes",
     "A file is reported valid if and only if none of its test outcomes is False. The verbose report lists the "
     "outcome of every test that was carried out, and the normal report lists exactly those outcomes of the verbose "
     "report that are False, in the same place and number.",
     ["inputs", "configurations"],
     "all files x formats; verbose and non-verbose report of the same file",
     TESTS + "so no report with a failed test in a nested box is ever compared with its verdict.",
     [BV, ET, JP],
     [("test recording", BV + ":testFor"), ("verdict", BV + ":_isValid"), ("pruning of empty branches", ET + ":appendIfNotEmpty")], [API])

prop("C03", "Every conforming file is accepted in its own format",
     "A file that satisfies all documented requirements of the selected format (JP2, JPH, or a bare J2C or JHC "
     "codestream) is reported valid, with no failed test. This holds for every legal combination of optional boxes, "
     "marker segments, tile and tile-part arrangements and field values, up to and including the ends of each allowed range.",
     ["inputs", "configurations"],
     "all conforming files of the four formats, generated from a grammar of boxes and marker segments",
     TESTS + "and even the one example image exercises a single combination of optional features.",
     [BV], [("box validators", BV + ":validate_*"), ("top level", BV + ":validate_JP2"), ("codestream", BV + ":validate_contiguousCodestreamBox")], [API])

prop("C04", "Truncated images are always detected",
     "If any number of bytes is cut off the end of a valid file such that the cut falls before the end of its first "
     "codestream or inside a later one, the remaining file is reported as not valid. This holds for every cut position and for all four formats.",
     ["inputs", "crash_points"],
     "every cut position of generated valid files (exhaustively for small files)",
     TESTS + "and cannot enumerate cut points of files with several tile-parts, undefined last tile-part length or open-ended boxes.",
     [BV], [("end of codestream test", BV + ":foundEOCMarker"), ("tile-part length chain", BV + ":foundNextTilePartOrEOC"),
            ("required boxes/markers", BV + ":validate_JP2")], [API])

prop("C05", "Rules on presence, order and number of boxes are enforced exactly",
     "For every sequence of boxes at the top level and inside the header, resolution and UUID info superboxes, the "
     "reported outcomes of the tests on presence, position, number, contiguity and mutual dependence of boxes are "
     "exactly those the documented rules prescribe for that sequence. A file that breaks one of these rules is never "
     "reported valid.",
     ["inputs"],
     "all box sequences: omissions, duplications, permutations, foreign boxes, for JP2 and JPH",
     TESTS + "so no box sequence at all is checked; the rules quantify over all sequences.",
     [BV], [("top-level rules", BV + ":validate_JP2"), ("header superbox rules", BV + ":validate_jp2HeaderBox"),
            ("resolution superbox", BV + ":validate_resolutionBox"), ("UUID info superbox", BV + ":validate_uuidInfoBox")], [API])

prop("C06", "Rules on the fields and length of each box are enforced exactly",
     "For every content of a signature, file type, image header, bits per component, colour specification (with "
     "embedded ICC profile), palette, component mapping, channel definition, resolution, XML, UUID, UUID list and "
     "URL box, each documented test on its length and field values is reported with the outcome the documented rule "
     "gives for the actual field value. An out-of-range value makes the file not valid; a value at either end of the "
     "allowed range does not.",
     ["inputs", "configurations"],
     "all values of all box fields (boundary sweep of every field plus random combinations), JP2 and JPH",
     TESTS + "so no field value is checked; off-by-one errors sit on boundaries a handful of sample images does not contain.",
     [BV, BC], [("box validators", BV + ":validate_imageHeaderBox ... validate_urlBox"), ("field decoding", BC)], [API])

prop("C07", "Rules on codestream main-header marker segments are enforced exactly",
     "For every codestream main header, each documented test on the presence of required marker segments and on the "
     "fields of the SIZ, COD, COC, RGN, QCD, QCC, POC, CRG, COM, CAP, PRF and CPF segments is reported with the "
     "outcome the documented rule gives for the actual field values, including component-indexed fields whose width "
     "depends on the number of components and rules that relate a segment's length to its contents. A main header "
     "that breaks a rule makes the file not valid.",
     ["inputs", "configurations"],
     "all main headers: every field boundary, repetition, omission and order of segments, 1..16384 components, all formats",
     TESTS + "so none of the marker-segment rules is ever evaluated on an input whose outcome is asserted.",
     [BV], [("main header loop", BV + ":validate_contiguousCodestreamBox"), ("segment validators", BV + ":validate_siz ... validate_cpf")], [API])

prop("C08", "Rules on tiles and tile-parts are enforced exactly",
     "For every arrangement of tile-parts, the tests on tile-part headers (start-of-tile fields, marker segments "
     "inside the header and where they are allowed, start of data, position of the next tile-part), on the number of "
     "tiles, on the number of tile-parts declared per tile and on the end-of-codestream marker have the documented "
     "outcome. A codestream that lacks a tile, contains a tile index that does not exist, has fewer or more tile-parts "
     "than declared, or a tile-part length that does not lead to the next tile-part or the end is never reported valid.",
     ["inputs"],
     "all tile-part sequences: counts, orders, interleavings, declared/undeclared tile-part counts, zero last length, damaged fields",
     TESTS + "whereas the rules relate many segments scattered over the codestream.",
     [BV], [("tile-part loop", BV + ":validate_contiguousCodestreamBox"), ("tile-part validator", BV + ":validate_tilePart"), ("SOT", BV + ":validate_sot")], [API])

prop("C09", "Header boxes must agree with the codestream header",
     "In JP2 and JPH files, whenever an image header box and a codestream image-size segment are both present, the "
     "height, width, number of components, and per-component sign and bit depth (taken from the bits per component "
     "box when the image header says the depth varies) are compared with the codestream, and each comparison is "
     "reported as failed exactly when the two disagree.",
     ["inputs"],
     "all pairs of header boxes and codestream headers, including image offsets, varying bit depths and wrong list lengths",
     TESTS + "and never relates two structures of one file.",
     [BV], [("consistency tests", BV + ":validate_JP2")], [API])

prop("C10", "The verdict follows the rules of the selected format only",
     "The same bytes may be analysed against any of the four formats, and each report applies exactly the rules that "
     "are documented for that format: brands, decoder capabilities, colour specification methods and parameters, "
     "colour box optionality, opacity channels, region-of-interest shift, capability and profile segments, "
     "high-throughput block style. A rule that is specific to one format never affects the outcome for another, and "
     "the report names the format that was applied.",
     ["inputs", "configurations"],
     "all files x all four formats (each file is analysed in all four)",
     TESTS + "so no input is analysed in a format other than the default one.",
     [BV, JP], [("format switches", BV + ":self.format"), ("root element per format", JP + ":checkOneFile")], [API])

prop("C11", "Reported box properties are the values encoded in the boxes",
     "Every property reported for a box equals the value stored in the corresponding field, in documented units and "
     "with the documented name for enumerated values. Repeated fields and repeated boxes are reported completely and "
     "in file order.",
     ["inputs"],
     "all box contents (every field at boundaries and random), all repetitions",
     TESTS + "so no reported property is compared with the bytes it came from.",
     [BV, BC, JP, ET], [("field decoding", BV + ":validate_*"), ("value names", JP + ":generatePropertiesRemapTable"), ("text rendering", ET + ":makeHumanReadable")], [API])

prop("C12", "Reported codestream properties are the values encoded in the markers",
     "Every property reported for a marker segment in the main header or in a tile-part header equals the value stored "
     "in the corresponding field, with the documented name for enumerated values, and is reported under the tile-part "
     "or main header it belongs to. Repeated segments, components, precincts and progression changes are reported "
     "completely and in codestream order.",
     ["inputs", "configurations"],
     "all codestream headers (boundaries and random values, 1..16384 components, several tile-parts), all formats",
     TESTS + "so no reported property is compared with the bytes it came from.",
     [BV, BC, JP], [("segment validators", BV + ":validate_siz ... validate_sot"), ("value names", JP + ":generatePropertiesRemapTable")], [API])

prop("C13", "Derived values follow their documented formulas",
     "Values that are computed rather than read follow their documented definitions for all inputs: compression ratio, "
     "number of tiles, capture and display resolution in pixels per metre and per inch, decoder-capability "
     "description, magnitude bound of high-throughput blocks, profile numbers, code-block and precinct sizes, ICC "
     "version, date and illuminant values.",
     ["inputs", "configurations"],
     "all inputs of each formula, at boundaries and random, in JP2/JPH (file based) and J2C/JHC (codestream based)",
     TESTS + "so no formula is evaluated on an input with a known answer.",
     [BV], [("compression ratio", BV + ":_calculateCompressionRatio"), ("tiles", BV + ":validate_siz"), ("resolution", BV + ":validate_captureResolutionBox"),
            ("htB", BV + ":validate_cap"), ("profile numbers", BV + ":validate_prf/validate_cpf")], [API])

prop("C14", "Embedded metadata is extracted unchanged",
     "Well-formed XML in an XML box or in an XMP UUID box appears in the report with the same elements, attributes, "
     "namespaces and text, in the same order and attached to the box it came from; other UUID boxes are reported by "
     "their UUID, and URL and comment texts as stored, except that control and other unprintable characters (Unicode "
     "category C) may be left out. Null-terminated XML is rejected, and is extracted only if the "
     "corresponding option is set, without changing the verdict.",
     ["inputs", "configurations"],
     "all XML trees, UUIDs, URLs and comments (encodings, namespaces, mixed content, null terminators) x nullxml on/off",
     TESTS + "so no embedded metadata is ever extracted.",
     [BV, ET], [("XML/UUID boxes", BV + ":validate_xmlBox/validate_uuidBox"), ("URL, comment", BV + ":validate_urlBox/validate_com"), ("text rendering", ET + ":makeHumanReadable")], [API])

prop("C15", "Unknown boxes are ignored and cause exactly one warning each",
     "Inserting boxes of an unknown type, with any content, into any file at any place where a box may stand (after "
     "the first two boxes of the file or after the first box of a superbox, but not between two colour specification "
     "boxes, which must be contiguous) leaves the verdict, all test outcomes and "
     "all other properties as they were, apart from file-size-dependent values. For each such box the report contains "
     "one entry with its type and one warning that names it, in the report as well as on standard error.",
     ["inputs"],
     "all files x all insertion points x all unknown types and contents",
     TESTS + "so no insertion relation between two files is ever checked.",
     [BV, ET], [("unknown box validator", BV + ":validate_unknownBox")], [API])

prop("C16", "The way a box length is encoded does not influence the result",
     "Encoding the length of any box as a 4-byte length, as an 8-byte extended length or, for the last box of its "
     "container, as the value 0 (until the end) yields the same verdict, tests, properties and warnings, apart from "
     "file-size-dependent values.",
     ["inputs"],
     "all files x all assignments of length encodings to their boxes",
     TESTS + "whereas this is a relation between many encodings of one file.",
     [BV, BC], [("box header parser", BV + ":_getBox")], [API])

prop("C17", "Output options never change verdict, tests or properties",
     "The verbose, packet-marker, null-terminated-XML and MIX options, in any combination, never change the verdict, "
     "the failed tests, the warnings or any property other than the ones the option itself adds. The packet-marker "
     "option adds exactly one entry per packet-level marker segment at its place, whose presence is otherwise only "
     "counted.",
     ["inputs", "configurations"],
     "all files x all option combinations",
     TESTS + "so no two option combinations are compared on one file.",
     [BV, JP], [("option flags", BV + ":__init__"), ("packet markers", BV + ":packetmarkersFlag"), ("mix", JP + ":checkOneFile")], [API])

prop("C18", "Command-line output is well-formed, schema-valid and complete",
     "For every list of input files and every option combination the standard output of the tool is one well-formed "
     "UTF-8 XML document that validates against the schema shipped for this version, also when files are not valid. "
     "It contains exactly one entry per input file in the order given, each with the content of the single-file "
     "analysis; pretty-printing only changes white space.",
     ["inputs", "configurations", "histories"],
     "all file lists (valid, invalid, corrupt, unusual names) x option combinations",
     TESTS + "and never validates the output against the schema for a JPEG 2000 file, let alone a corrupt one.",
     [JP, ET, "xsd/jpylyzer-v-2-2.xsd"], [("writer", JP + ":writeElement"), ("batch loop", JP + ":checkFiles"), ("schema", "xsd/jpylyzer-v-2-2.xsd")], [CLI])

prop("C19", "File selection follows the documented path, wildcard and recursion rules",
     "The set of analysed files is the one the documentation describes for every directory tree: existing files named "
     "on the command line, matches of wildcard expressions, and with the recursion option all files below a directory "
     "or all files in its subtree that match the expression (an expression that matches a single directory stands for "
     "that directory; the fixed directory part of an expression contains no wildcard characters). Recursion into a directory "
     "does not follow links to directories, so that it also ends when these lead back. Only regular files are analysed, none is missed, paths "
     "that do not exist only cause a warning, and if nothing is found the tool says so with a non-zero exit status and "
     "no report.",
     ["inputs", "configurations"],
     "all directory trees (nesting, names with special characters, links) x path expressions x recursion on/off",
     TESTS + "with one flat directory and no wildcard or recursion cases of a generated tree.",
     [JP], [("selection", JP + ":findFiles"), ("tree walks", JP + ":getFilesFromTree/getFilesWithPatternFromTree"), ("nothing found", JP + ":checkNoInput")], [CLI])

prop("C20", "MIX metadata agrees with the reported properties",
     "With a MIX option, a valid JP2 or JPH file gets one MIX record of the requested version whose fields (format, "
     "compression scheme and ratio, width, height, colour space, ICC profile name, codec, tiling, layers, levels, "
     "capture metadata from XMP, sampling frequencies, bits per sample, samples per pixel) equal the corresponding "
     "properties of the same report. Files that are not valid, and bare codestreams, get no record, and the option "
     "never causes a failure.",
     ["inputs", "configurations"],
     "all valid and invalid files x MIX version 1/2 x formats",
     TESTS + "so MIX output of an actual image is never inspected.",
     [MX, JP], [("MIX generation", MX + ":Mix.generateMix"), ("gate", JP + ":checkOneFile")], [API])

prop("C21", "Results depend only on the file and the options, and inputs are never changed",
     "The report on a file is a function of its bytes, name, modification time and the options: it does not depend on "
     "which other files were analysed before in the same process or batch, or on their order or number. Analysing a "
     "file never modifies it, creates no other file, leaves no open file behind and leaves the settings of the calling process "
     "(working directory, environment, standard streams, signal handlers, limits) as they were.",
     ["histories", "inputs"],
     "all sequences of analyses in one process, mixing formats, options, valid, corrupt, empty and unreadable files",
     TESTS + "each in isolation or in one fixed order; state leaking between analyses needs a history to show.",
     [JP, BV], [("no shared mutable state", BV + ":BoxValidator"), ("file handling", JP + ":fileToMemoryMap")], [API])

prop("C22", "File information in the report is that of the file",
     "For every file name, directory, size and modification time the report gives the file's name, its absolute path, "
     "its exact size in bytes and its modification time in local time, with only such characters altered as XML "
     "cannot represent; time stamps outside the representable range do not prevent the analysis.",
     ["inputs", "configurations"],
     "all file names (Unicode, undecodable bytes, control characters), sizes and time stamps, relative and absolute paths",
     TESTS + "with ordinary ASCII names and time stamps of the checkout only.",
     [JP], [("file information", JP + ":checkOneFile"), ("name clean-up", JP + ":stripSurrogatePairs")], [API, CLI])

prop("C23", "Unreadable inputs are reported, not fatal",
     "A path that cannot be opened or read produces a report whose status is failure with a message that says it is an "
     "input/output error, verdict False, no tests or properties, and a warning with the same message; a file that "
     "yields a memory error is reported as such. The other files of the batch are analysed and reported as if the "
     "failing one were absent.",
     ["fault_sequences", "histories"],
     "all positions of failing inputs in a batch and all failure kinds (directory, permission, read error, memory error)",
     TESTS + "and never injects a failure into an open or read.",
     [JP], [("failure report", JP + ":checkOneFile"), ("batch loop", JP + ":checkFiles")], [API, CLI])

prop("C24", "Packet lengths are decoded exactly",
     "For every sequence of packet lengths stored in packet-length marker segments of the main header or of tile-part "
     "headers, the packet-marker report lists exactly these lengths, in order, together with the segment's index and "
     "length. Damaged or cut-off length lists never lead to values that are not in the segment, nor to a failure.",
     ["inputs"],
     "all sequences of packet lengths 0..2^32-1 (1..5 byte encodings), split over segments, plus damaged tails",
     TESTS + "so the variable-length decoder is never run.",
     [BV], [("decoder", BV + ":_parse_ipl"), ("segments", BV + ":validate_plt/validate_plm")], [API])

prop("C25", "Reading with or without memory mapping gives the same report",
     "On platforms without memory mapping the tool reads files into memory instead; for every file and option "
     "combination, both ways give the same verdict, tests, properties and status, also for empty and corrupt files.",
     ["inputs", "configurations"],
     "all files (empty, corrupt, conforming) x {memory map available, not available}",
     TESTS + "only with memory mapping available.",
     [JP], [("fallback", JP + ":NO_MMAP_LIB/fileToBytes"), ("memory map", JP + ":fileToMemoryMap")], [API])

prop("C26", "Concurrent analyses do not influence each other",
     "Several analyses may run at the same time in threads of one process, on different files or the same file, with "
     "different formats and options. For every interleaving each of them returns the same report as when it runs alone, "
     "and all of them finish.",
     ["schedules", "inputs"],
     "all interleavings of 2-4 threads of analyses, on all files, formats and options",
     TESTS + "one after another; nothing ever runs two analyses at once.",
     [JP, BV], [("state of an analysis", BV + ":BoxValidator.__init__"), ("options are passed along, not global", JP + ":checkOneFile")], [API])

prop("C27", "Output does not depend on how the tool is started",
     "The standard output for a list of files and a set of options is the same (apart from the recorded name of the "
     "program) for every legal spelling, order and position of the options, for every entry point, working directory, way of "
     "naming the files, locale, output encoding, hash seed or optimisation setting of the interpreter, and whether it goes to a "
     "pipe, a file or a terminal. Illegal options lead to a message and no report.",
     ["configurations", "inputs"],
     "all file lists and option sets x spellings x entry points x environments x kinds of standard output",
     TESTS + "from one environment.",
     [JP], [("options", JP + ":parseCommandLine/main"), ("output encoding", JP + ":checkFiles/writeElement"), ("entry points", "jpylyzer/__main__.py")], [CLI])

prop("C28", "Warnings on standard error and in the report are the same and complete",
     "For every file and all options the warnings that are written to standard error (each with the prefix 'User warning:') are exactly "
     "those in the warnings element of the report: one for each unknown or unsupported box, at the place that corresponds to the box and with its name, "
     "one for an empty file or a failure, and none otherwise. Nothing else is written to standard error, the single-file analysis writes nothing "
     "to standard output, and in a batch the warnings of all files plus one for each path that does not exist appear.",
     ["inputs", "configurations"],
     "all files x formats x options; batches with missing paths",
     TESTS + "without looking at warnings.",
     [BV, JP], [("file-level warnings", BV + ":validate/validate_unknownBox/addWarning"), ("batch", JP + ":checkOneFile/findFiles"), ("standard error", "jpylyzer/shared.py:printWarning")], [API, CLI])

prop("C29", "Compressed image data is never interpreted",
     "The report depends on headers only: replacing the data after the start-of-data marker of any tile-part of any file by other bytes of "
     "the same number, whatever these look like (markers, boxes, complete codestreams), leaves the report, the MIX record and all messages as they were. If the "
     "number of bytes changes too, only the file size, the compression ratio and the tile-part lengths change.",
     ["inputs"],
     "all files whose tile-part lengths are right x tile-parts x contents",
     TESTS + "with the data they happen to have.",
     [BV], [("tile-parts", BV + ":validate_tilePart/validate_contiguousCodestreamBox")], [API])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P))
