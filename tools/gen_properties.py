#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording stays reviewable)."""
import json, os

P = []

def prop(id_, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({
        "id": id_, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": None}})

prop("C01", "Every data layout a parser asks for is defined and closed",
  "Whatever the content of the input, a parser never fails because a data type it asks for by name is missing from "
  "the definition file it uses, because that definition refers to an undefined type, or because a size, count or "
  "condition expression of the definition refers to a value that is neither an earlier field nor supplied by the parser. "
  "Every definition and debug definition file a parser names is shipped with the package.",
  ["inputs", "programs"],
  "all record types, format versions and branches of every parser, all definition files",
  "The tests map a few dozen structures from a handful of sample files; most branch-specific names (per record type, version, "
  "value type) are never requested by a test, and a missing name is only noticed when it is.",
  ["dtformats/*.py", "dtformats/*.yaml", "dtformats/data_format.py"],
  [("_GetDataTypeMap / _FABRIC.CreateDataTypeMap", "dtformats/data_format.py and class bodies"),
   ("dtFabric YAML definitions", "dtformats/*.yaml"), ("package data", "pyproject.toml")],
  ["KeyError, DefinitionReaderError, ParseError or AttributeError instead of a mapped structure"])

prop("C02", "Every field a parser reads exists in the layout it decoded",
  "On every path, each field read from a decoded structure (in the library and in the command line tools) is a field of every "
  "layout that structure can have been decoded with, or was set on it by the parser before. No input can therefore make a "
  "reader stop with an attribute error on a decoded structure.",
  ["inputs", "programs"], "all format versions, record types and branches, with and without debug output",
  "A field access only fails when it is executed on a structure of the wrong variant; the tests execute few variants.",
  ["dtformats/*.py", "scripts/*.py", "dtformats/*.yaml"],
  [("structure members", "dtformats/*.yaml"), ("attribute accesses", "dtformats/*.py")],
  ["AttributeError at a field access"])

prop("C03", "Debug definitions describe fields that exist, with a fitting formatter",
  "For every structure that is printed when debug output is enabled, debug information is found, each entry names a field of "
  "the structure, and its formatter exists on the parser and accepts the type of that field. Enabling debug output therefore "
  "never fails on, and never silently omits, a described field.",
  ["inputs", "configurations"], "all structures of all parsers with debug output enabled",
  "Missing fields are skipped silently and missing formatters only fail when the structure is printed; most structures are never "
  "printed by a test.",
  ["dtformats/*.debug.yaml", "dtformats/data_format.py", "dtformats/yaml_definitions_file.py", "dtformats/*.py"],
  [("_DebugPrintStructureObject, _DEBUG_INFORMATION, _DEBUG_FORMAT_CALLBACKS", "dtformats/data_format.py"),
   ("custom_format_callbacks", "class bodies of the parsers")],
  ["debug output", "TypeError/AttributeError with debug=True"])

prop("C04", "Enabling debug output never changes what is parsed",
  "For every input, reading it with debug output enabled yields the same values, in the same order, and ends the same way "
  "(success or parse error) as reading it with debug output disabled. Debug output only adds text to the output writer.",
  ["inputs", "configurations"], "all inputs, debug on versus off",
  "Tests compare neither mode with the other, and run with one fixed mode on well-formed samples.",
  ["dtformats/*.py"],
  [("if self._debug: blocks and _DebugPrint* methods", "dtformats/data_format.py and all parsers")],
  ["parsed values, raised errors, file position"],
  [("_debug", "whether debug output is enabled", "dtformats/data_format.py")])

prop("C05", "Malformed content is reported as a parse error, not another exception",
  "Whatever bytes a file contains, opening and reading it through the public interface either succeeds or raises a parse error "
  "(or an operating system I/O error). Undecodable text, corrupt compressed data, numbers or dates out of range, empty or "
  "too short data, values that index past what was decoded and zero divisors never surface as any other exception.",
  ["inputs"], "all byte strings as file content, all public reading entry points of the library",
  "The input space is unbounded; the tests contain almost no malformed input.",
  ["dtformats/*.py"],
  [("errors.ParseError", "dtformats/errors.py"), ("_ReadData, _ReadStructureFrom*", "dtformats/data_format.py"),
   ("except clauses at conversions", "dtformats/*.py")],
  ["exception type leaving Open/ReadFileObject/Read*/Get* methods"])

prop("C06", "A truncated read is never taken for complete data",
  "When fewer bytes are available than a format requires, the shortfall is noticed: data obtained from a file is only used as a "
  "value after its size was checked or it was mapped onto a layout that enforces its size.",
  ["inputs", "fault_sequences"], "all truncation points of all inputs",
  "Tests read complete sample files; there is one truncation test for the central read method.",
  ["dtformats/*.py"],
  [("_ReadData size check", "dtformats/data_format.py"), ("raw file_object.read() calls", "dtformats/*.py")],
  ["ParseError versus silently shortened values"])

prop("C07", "Reading any finite file terminates",
  "Every loop and recursion whose iteration count is controlled by file content makes progress on every iteration or is bounded: "
  "no content, including zero sizes and offsets that point backwards or at themselves, makes a reader run forever.",
  ["inputs"], "all byte strings as file content",
  "Non-termination needs a crafted size or offset; the tests use well-formed samples.",
  ["dtformats/*.py", "scripts/*.py"],
  [("while loops over offsets, linked lists and pages", "dtformats/*.py"), ("recursive readers", "dtformats/*.py")],
  ["termination of Open/Read*"])

prop("C08", "Evidence is only ever read",
  "The library and its tools never create, modify, rename or delete files, never start processes or open network connections, and "
  "never evaluate or deserialize input in a way that can execute code; every file is opened for reading only.",
  ["inputs", "programs"], "all call paths of the library and the command line tools",
  "A test cannot show the absence of an effect on the paths it does not run.",
  ["dtformats/*.py", "scripts/*.py"],
  [("open modes, os/shutil/subprocess/yaml/pickle calls", "dtformats/*.py, scripts/*.py")],
  ["file system, processes, network"])

prop("C09", "Results depend on the input alone",
  "Reading the same input twice, in another process, locale, time zone, working directory or on another day yields the same values "
  "in the same order and the same output text. Nothing that is returned or printed depends on the clock, randomness, environment, "
  "locale, local time zone, hash or memory order, or directory enumeration order.",
  ["inputs", "configurations", "histories"], "all inputs, environments and repeated runs",
  "Tests run in one process with PYTHONHASHSEED and TZ fixed.",
  ["dtformats/*.py", "scripts/*.py"],
  [("date and time conversion", "dtformats/*.py"), ("set and directory iteration", "dtformats/*.py")],
  ["returned values, output text"])

prop("C10", "Parser objects do not influence each other",
  "What one parser object reads never changes what another parser object returns: no reading path modifies module level or "
  "class level objects or default argument values, and a second parser starts from the same state as the first.",
  ["histories"], "all sequences of objects created and files read in one process",
  "Tests create one object per test and never compare a second read after a first one.",
  ["dtformats/*.py", "scripts/*.py"],
  [("class level tables, module constants, default arguments, __init__ state", "dtformats/*.py")],
  ["values returned by later objects"])

prop("C11", "Every file that is opened is closed on every exit",
  "A file object opened by the library or a tool is closed, or handed to an owner that closes it, on every normal and exceptional "
  "exit of the code that opened it (for the Main function of a tool: every return; an exception ends the process); a failed open "
  "leaves the parser closed and reusable, and an object that was never opened is not closed where that always fails.",
  ["inputs", "fault_sequences", "histories"], "all exits, including parse errors at any point",
  "Tests exercise the successful open/close sequence only.",
  ["dtformats/data_format.py", "dtformats/*.py", "scripts/*.py"],
  [("BinaryDataFile.Open/Close", "dtformats/data_format.py"), ("OpenFileByPath", "dtformats/file_system.py"),
   ("nested file objects", "dtformats/wmi_repository.py, dtformats/unified_logging.py")],
  ["open file descriptors, ability to reopen"],
  [("_file_object", "the open file, None when closed", "dtformats/data_format.py")])

prop("C12", "Content with an unsupported signature or version is rejected",
  "For each format that carries a signature, magic value, marker, object type or format version that the reader knows, reading content with "
  "any other value ends with a parse error: it does not complete as if the value were supported and nothing decoded from there on is "
  "yielded. Content with a supported value is decoded with the layouts and the decompression method of that value.",
  ["inputs"], "all values of every signature, marker and version field that a reader knows, of its full size",
  "Tests read files with the supported values only, and mostly of one version.",
  ["dtformats/*.py", "dtformats/*.yaml"],
  [("comparisons against signature and version constants", "dtformats/*.py"), ("value/values of YAML members", "dtformats/*.yaml")],
  ["ParseError"])

prop("C13", "Layouts agree with the documented on-disk formats",
  "Each field of a decoded structure is taken from the place in the structure, with the size, type, encoding, count and byte order that the format "
  "documentation shipped with the repository gives for it (for the structures it does not describe: that the layout definitions of the "
  "pinned version give). Fields therefore carry the values the format stores in them.",
  ["inputs"], "all fields of all structures that have a layout definition",
  "Tests assert few field values, on samples in which many fields are zero.",
  ["dtformats/*.yaml", "documentation/*.asciidoc"],
  [("member order, type, byte order", "dtformats/*.yaml"), ("format tables", "documentation/*.asciidoc")],
  ["values of decoded fields"])

prop("C14", "Values are used as what they are on every path",
  "On every path of the library and the tools, including error messages and debug output, names are defined before use, calls match the "
  "signature of what they call, results are unpacked in the shape that is returned, and values are formatted and operated on "
  "according to their type. No input makes a reader stop with a type, name or attribute error of its own code.",
  ["inputs", "programs"], "all branches of all functions",
  "Error messages, rare branches and debug output are mostly never executed by the tests.",
  ["dtformats/*.py", "scripts/*.py"],
  [("f-strings, calls, tuple unpacking, attribute accesses", "dtformats/*.py, scripts/*.py")],
  ["TypeError, NameError, UnboundLocalError, AttributeError, ValueError of a format string"])

prop("C15", "A data range only exposes bytes of its range",
  "For every sequence of seeks and reads on a data range, each read returns bytes of the range only, starting at the current position, "
  "never more than asked for and never past the end of the range, and positions before the start are refused.",
  ["inputs", "histories"], "all ranges, positions and sizes, all sequences of operations",
  "Tests try a few positions and sizes.",
  ["dtformats/data_range.py"],
  [("DataRange.read/seek/tell", "dtformats/data_range.py")],
  ["bytes returned by read, position"],
  [("_current_offset", "position relative to the start of the range", "dtformats/data_range.py")])

prop("C16", "Calculated hash values are 32-bit values",
  "For every path or key, the Prefetch hashes and the cache key hash the library calculates lie between 0 and 4294967295.",
  ["inputs"], "all strings and byte strings",
  "Tests calculate the hash of a few inputs.",
  ["dtformats/prefetch.py", "dtformats/chrome_cache.py"],
  [("masking with 0xffffffff and modulo 2^32", "dtformats/prefetch.py, dtformats/chrome_cache.py")],
  ["return values of the hash functions"])

prop("C17", "Files are reached through the file system helper only",
  "When a parser or tool is given a file system helper (for example for a storage media image), every file and directory it looks at is "
  "accessed through that helper, and every parser it creates gets the same helper; nothing is taken from the local file system instead.",
  ["configurations", "programs"], "all parsers and tools, all helpers",
  "Tests use the local file system helper only.",
  ["dtformats/*.py", "scripts/*.py"],
  [("FileSystemHelper and its implementations", "dtformats/file_system.py, dtformats/dfvfs_helpers.py"),
   ("_file_system_helper", "dtformats/data_format.py")],
  ["which file system is accessed"])

prop("C18", "A tool that could not do its work exits with a failure status",
  "Each command line tool ends with exit status 0 only after it processed the source it was given; a missing argument, an unsupported or "
  "unreadable source or a parse error ends it with a non-zero status, and its result is passed on to the shell.",
  ["inputs", "fault_sequences"], "all arguments and inputs of all tools",
  "There are no tests of the tools.",
  ["scripts/*.py"],
  [("Main() return values and sys.exit", "scripts/*.py")],
  ["exit status"])

prop("C19", "An error of reading is not swallowed",
  "An error that is met while data is read (a parse error, an error of the operating system, of mapping data onto a layout or of "
  "decompression) reaches the caller of the public method, so that what could only be read in part is never presented as complete. "
  "The only recoveries are: a Firefox cache block that holds no cache entry is skipped, the header of a CIM repository mapping file "
  "is tried again in another version, and a structure that needs more data is read again with more data.",
  ["inputs", "fault_sequences"], "all inputs and read errors",
  "A handler that hides an error only shows on the damaged input that causes it; the tests hardly use damaged input.",
  ["dtformats/*.py", "scripts/*.py"],
  [("exception handlers", "dtformats/*.py"), ("the readers' ReadFileObject methods", "dtformats/*.py")],
  ["Open/Read* either completes or raises"])

prop("C20", "Structures and data are read from the positions the format gives",
  "Whatever the content of a file, a reader takes each structure, string and block of data from the position, and with the size, that the "
  "format derives from the fields decoded before it (offsets, sizes, counts, header sizes, alignment), and decodes text with the encoding "
  "of the format. No path, including rarely used record types and versions, reads from a position that is shifted or scaled differently, or takes a field, count or size for another case because it is compared with a different boundary.",
  ["inputs"], "all contents of all formats, all record types and versions",
  "Tests read a few sample files; most record types, versions and optional parts do not occur in them.",
  ["dtformats/*.py", "scripts/*.py"],
  [("calls of _ReadStructureFromFileObject, _ReadStructureFromByteStream, _ReadData, seek, read, MapByteStream and decode", "dtformats/*.py")],
  ["position, size and source of what is decoded"])


with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
