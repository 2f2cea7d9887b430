#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Literal strings decode to exactly the bytes they denote",
  "Reading a literal string object yields exactly the bytes it denotes: unescaped parentheses nest and are kept, \\n \\r \\t \\b \\f stand for their control characters, a one- to three-digit octal code for its byte, a backslash before an end of line (LF, CR or CRLF) vanishes with it, and any other escaped byte stands for itself. "
  "Reading stops immediately after the matching closing parenthesis, so the following object is unaffected. "
  "A string that runs into the end of the input yields what was read so far, and an octal code above \\377 uses only its first two digits.",
  ["inputs"], "every byte sequence after the opening parenthesis, of every length",
  "strings.pdf samples one array of four strings and three truncated ones; the escape, octal and nesting rules interact over all byte sequences.",
  ["pdf/parser.go"], [("escape, octal and parenthesis scanner", "pdf/parser.go ReadString"), ("dispatch on first byte", "pdf/parser.go ReadObject")],
  observe=["value returned for the string object", "object read next"])
p("C02", "Hexadecimal strings decode to exactly the bytes they denote",
  "Reading a hexadecimal string yields one byte per pair of hex digits of either case, a missing last digit counts as zero, and whitespace, comments and characters that are not hex digits are skipped. "
  "Reading stops immediately after the closing '>', so the following object is unaffected; a string that runs into the end of the input yields the bytes read so far.",
  ["inputs"], "every byte sequence after the opening '<', of every length",
  "strings.pdf holds two hex strings; digit pairing across skipped characters and odd lengths is sampled once.",
  ["pdf/parser.go", "pdf/utility.go"], [("digit pair loop", "pdf/parser.go ReadHexString"), ("digit test", "pdf/utility.go IsHex")],
  observe=["value returned for the string object", "object read next"])
p("C03", "Names decode #xx escapes and end at the first delimiter",
  "Reading a name yields the bytes after the slash up to, not including, the first whitespace or delimiter byte or the end of input, with every #xx pair of hex digits replaced by the byte it codes; the terminating byte remains to be read next. "
  "When the digits after '#' are cut short by another byte or the end of input the missing digits count as zero and that byte is read as what follows.",
  ["inputs"], "every byte sequence after the slash, of every length",
  "names.pdf and three truncated files sample five escapes; which bytes terminate or are coded is a question about all bytes.",
  ["pdf/parser.go"], [("name scanner", "pdf/parser.go ReadName")],
  observe=["name value", "object read next", "dictionary keys"])
p("C04", "Numbers have the value their decimal notation denotes",
  "A numeric object (optional sign, digits, optional fraction) reads as the number its decimal notation denotes: exactly for integers up to 2^53, to double precision for reals. "
  "It ends at the first byte that cannot continue it, which stays to be read next.",
  ["inputs"], "every sign, digit string and fraction",
  "No existing test asserts the value of a real number; integers only occur as offsets and lengths.",
  ["pdf/parser.go", "pdf/number.go"], [("number scanner", "pdf/parser.go ReadNumber"), ("integer scanner", "pdf/parser.go ReadInt64")],
  observe=["Number value", "object read next"])
p("C05", "Whitespace and comments only separate tokens",
  "Replacing the separator between two tokens by any non-empty mix of whitespace bytes (NUL, TAB, LF, FF, CR, space) and comments, or adding such a mix where tokens already meet at a delimiter, does not change any object read, including object headers and references. "
  "A comment runs from '%' to the first CR or LF (or the end of input) and a '%' inside a string is data.",
  ["inputs"], "every separator string between every pair of adjacent tokens",
  "comments.pdf and carriage_return.pdf sample three placements; the property ranges over every mix and position.",
  ["pdf/parser.go"], [("separator skipping", "pdf/parser.go consumeWhitespace, consumeComment"), ("object marker pattern", "pdf/parser.go start_obj_regexp")],
  observe=["objects returned by reading the input with and without the separators"])
p("C06", "Arrays, dictionaries and references are read with their exact structure",
  "Reading an array yields its elements in order, reading a dictionary yields each name key with the value that follows it (the last one when a key repeats; entries whose key is not a name are skipped), to any nesting, and 'n g R' yields a reference to object n generation g while 'n g' not followed by R stays two numbers. "
  "A composite cut off by the end of input keeps the elements read so far, and whatever follows its closing bracket is read as the next object.",
  ["inputs"], "every nesting of objects, every element count, every malformed or missing key or value",
  "Tests sample empty, unclosed and one malformed composite; order, nesting, repeated keys and number/reference ambiguity are combinatorial.",
  ["pdf/parser.go", "pdf/array.go", "pdf/dictionary.go"], [("recursive reader", "pdf/parser.go ReadObject, ReadArray, ReadDictionary"), ("reference look-ahead with rewind", "pdf/parser.go ReadObject, CurrentOffset, Seek")],
  observe=["object tree returned"])
p("C07", "Every documented abnormality is logged when, and only when, it occurs",
  "While objects are read, the error log receives the documented message for each abnormality present (unclosed array, dictionary, string, hex string, stream, string escape or octal; invalid hex string character, octal or name escape; invalid dictionary key; missing dictionary value; unnecessary escapes in names and strings), once per occurrence and in input order. "
  "Input that is free of abnormalities logs nothing.",
  ["inputs"], "every input, for each of the fourteen message kinds",
  "No existing test looks at the error log at all.",
  ["pdf/parser.go", "pdf/errors.go", "pdf/output.go"], [("logging calls in the readers", "pdf/parser.go log_error"), ("message texts", "pdf/errors.go"), ("writer", "pdf/output.go Error")],
  observe=["errors.txt"])
p("C08", "Stream data is exactly the bytes between stream and endstream",
  "The raw data of a stream object is exactly the bytes after the end of line that follows the 'stream' keyword (LF, CRLF or lone CR) up to the first 'endstream', minus one end of line directly before it, whatever those bytes are and whatever Length says. "
  "A stream without 'endstream' extends to the end of the input.",
  ["inputs"], "every stream content, including ones containing prefixes of 'endstream', and every end-of-line form",
  "The tests read about ten well-formed streams of printable text.",
  ["pdf/parser.go"], [("sliding window scan for the end marker", "pdf/parser.go ReadStream"), ("keyword after the value", "pdf/parser.go GetObject")],
  observe=["IndirectObject.Stream"])
p("C09", "What is read never depends on how the bytes arrive",
  "Reading any object, stream, object header or cross-reference section gives the same result whatever its offset in the file and however the underlying reader splits its data into reads (including reads that return fewer bytes than asked for). "
  "In particular nothing changes when a token, a '<<' marker, a stream start or an 'endstream' marker straddles an internal buffer boundary.",
  ["inputs", "schedules"], "every input, every offset and every split of the input into short reads",
  "All test files are read by os.File in one or two buffer fills; only one is larger than the 4096-byte buffer and nothing of note lies at its boundary.",
  ["pdf/parser.go", "pdf/utility.go"], [("buffered reading and seeking", "pdf/parser.go Seek, CurrentOffset, Read/Peek uses"), ("fixed width integer reads", "pdf/utility.go ReadInt64")],
  observe=["objects and streams returned"])
p("C10", "ASCII filters decode every encoding of every byte string",
  "ASCIIHexDecode and ASCII85Decode return the original bytes for every encoding of every byte string: upper or lower case digits, any interspersed whitespace, an odd final hex digit (as if followed by 0), the 'z' abbreviation, partial final groups, with the end marker ('>' or '~>') present or missing. "
  "Nothing after the end marker contributes to the output.",
  ["inputs"], "every byte string and every legal encoding of it",
  "One file per filter is decoded by the tests, with one partial group.",
  ["pdf/filters.go"], [("hex filter", "pdf/filters.go ASCIIHexDecode"), ("base-85 filter", "pdf/filters.go ASCII85Decode")],
  observe=["decoded stream"])
p("C11", "RunLengthDecode expands every run sequence exactly",
  "RunLengthDecode returns, for every input, the concatenation of its runs: a length byte n below 128 copies the next n+1 bytes, n above 128 repeats the next byte 257-n times, 128 ends the data. "
  "Truncated input yields the runs and the part of the last literal run that are present.",
  ["inputs"], "every input byte string, every length byte, every truncation point",
  "One nine-byte input is decoded by the tests.",
  ["pdf/filters.go"], [("run loop", "pdf/filters.go RunLengthDecode")], observe=["decoded stream"])
p("C12", "PNG predictors are undone exactly for every geometry and row tag",
  "For predictors 10 to 15, reversing the prediction restores the original rows for every Colors, BitsPerComponent and Columns, each row by the algorithm its tag byte names (None, Sub, Up, Average, Paeth), with neighbours taken one whole pixel to the left and one row up and missing neighbours counted as zero. "
  "A truncated last row is restored as far as it goes.",
  ["inputs"], "every row content, every sequence of tags, every geometry",
  "No existing test uses a PNG predictor.",
  ["pdf/filters.go"], [("row reconstruction", "pdf/filters.go ReversePredictor")], observe=["decoded stream"])
p("C13", "The TIFF predictor is undone exactly for every component size",
  "For predictor 2, reversing the prediction adds to every component of every pixel but the first of its row the corresponding component of the pixel to its left, modulo 2 to the number of bits per component, for components of 1, 2, 4, 8 and 16 bits, any number of colours and columns, and leaves every other bit unchanged. "
  "Rows start on byte boundaries and a truncated last row is restored as far as whole components go.",
  ["inputs"], "every row content, component size, colour count and column count",
  "One 12-byte, 8-bit image is decoded by the tests; sub-byte and 16-bit components never.",
  ["pdf/filters.go", "pdf/utility.go"], [("component walk", "pdf/filters.go ReversePredictor"), ("bit field access", "pdf/utility.go GetBits, SetBits")], observe=["decoded stream"])
p("C14", "Filter chains apply each filter once, in order, with its own parameters",
  "The decoded data of a stream is the result of applying the filters of its Filter entry (a name or an array) first to last, each with the DecodeParms dictionary at the same position; a missing, null or single-dictionary DecodeParms and filters given through references behave accordingly, and unknown filters pass the data through. "
  "FlateDecode and LZWDecode (EarlyChange 0 and 1) return the data the compressor was given, with the predictor undone afterwards, and data that cannot be decompressed at all is passed through.",
  ["inputs"], "every chain of filters, every parameter arrangement, every payload",
  "filter_multiple.pdf is the only chain the tests decode; parameter pairing is never exercised.",
  ["pdf/parser.go", "pdf/filters.go"], [("filter list construction", "pdf/parser.go GetObject"), ("filter loop", "pdf/parser.go ReadStream"), ("filter dispatch", "pdf/filters.go DecodeStream")], observe=["IndirectObject.Stream"])
p("C15", "Exactly the right password opens an encrypted document",
  "An encrypted document opens with a password if and only if the password yields, by the standard security handler's algorithms for its revision (2, 3 or 4), key length, O, P, ID and EncryptMetadata entries, the stored U value; any other password is refused with the incorrect-password error and nothing is extracted. "
  "Passwords count only up to 32 bytes and shorter ones are padded as the standard says; missing entries and unsupported handlers are refused with their own errors.",
  ["inputs", "configurations"], "every password, every O/U/P/ID value, every supported revision and key length",
  "encrypted.pdf is opened once with the empty password; no test tries a wrong or non-empty password.",
  ["pdf/encryption.go", "pdf/parser.go"], [("parameter validation and password check", "pdf/encryption.go Init"), ("file key derivation", "pdf/encryption.go computeEncryptionKey")], observe=["error returned by Load/Parse", "decrypted objects"])
p("C16", "Each string and stream is decrypted with the right cipher and object key",
  "In an opened encrypted document every string and stream of an object is decrypted with the key derived from the file key and that object's own number and generation, with the cipher (RC4, AES-CBC or none) the document selects for it: StrF for strings, StmF for streams, EFF for embedded files (StmF when absent), or the stream's own Crypt filter, Identity meaning none; AES removes the initialisation vector and padding. "
  "Cross-reference streams and the encryption dictionary itself are never decrypted.",
  ["inputs", "configurations"], "every object number and generation, every crypt filter assignment, every ciphertext",
  "encrypted.pdf exercises one RC4 configuration with small object numbers; AES, crypt filter selection and embedded files are never exercised.",
  ["pdf/encryption.go", "pdf/parser.go"], [("object key salting", "pdf/encryption.go NewDecryptor"), ("filter selection", "pdf/encryption.go Init, pdf/parser.go GetObject"), ("ciphers", "pdf/encryption.go Decrypt")], observe=["object values and streams"])
p("C17", "The newest cross-reference entry decides where an object is read from",
  "After loading, an object number is located through the newest cross-reference section that mentions it: sections are chained by Prev, newer ones override older ones, and the section startxref points to overrides all others; sections nothing points to are found by scanning and apply before it, in file order; what startxref or Prev points to is taken for a section only if it is one; tables and streams with any field widths (a zero-width type field meaning type 1) and any Index subsections or the default one are understood. "
  "Entries marked free or compressed do not resolve to an object of the file, and the newest trailer's entries win.",
  ["inputs", "histories"], "every chain of sections (tables and streams), every update history, every subsection layout and field width",
  "Three files with chains of at most three sections; widths are always [1 2 1].",
  ["pdf/parser.go", "pdf/xref.go", "pdf/utility.go"], [("section loading and merge order", "pdf/parser.go Load, loadXref, loadXrefTable, loadXrefStream"), ("fixed width fields", "pdf/utility.go ReadInt64")], observe=["Parser.Xref", "objects returned"])
p("C18", "Objects with missing or wrong cross-reference entries are still found",
  "An object in the file that no cross-reference entry mentions, or whose entry does not point to an object header with its number, is located by its header 'n g obj' (the last one in the file), so it is extracted like any other; if there is no usable cross-reference data at all, every object is still found. "
  "An entry that does point to a header with the right number is used as it is, even if the file contains other headers with that number.",
  ["inputs"], "every damage to cross-reference offsets and every arrangement of objects and junk between them",
  "xref_repair.pdf has one entry with a wrong offset; correct entries and decoy headers are not tested.",
  ["pdf/parser.go"], [("object header scan", "pdf/parser.go findObjects, start_obj_regexp"), ("repair loop", "pdf/parser.go Load")], observe=["Parser.Xref", "objects returned"])
p("C19", "References resolve to their object, cycles to null, without side effects",
  "Resolving a reference yields the value (or stream) of the object it names, following references to references, and null when the chain is circular or the object is missing or free; this also holds for references used in stream dictionaries, including ones that lead back to the stream itself. "
  "Resolving never disturbs the position from which the parser continues reading.",
  ["inputs", "histories"], "every reference graph, every point of a read at which a reference is resolved",
  "Tests resolve one reference, one null and one self-loop; cycles through stream dictionaries are not tested.",
  ["pdf/reference.go", "pdf/parser.go"], [("cycle guard", "pdf/reference.go resolve"), ("position save and restore", "pdf/reference.go Resolve, ResolveStream; pdf/parser.go CurrentOffset, Seek")], observe=["resolved object", "object read next"])
p("C20", "Typed accessors return a value exactly when it is there with that type",
  "Every typed getter on dictionaries and arrays (array, boolean, bytes, dictionary, integer, name, number, reference, stream, string) returns the entry's value and true exactly when the entry exists, directly or through references, with that type, and otherwise the zero value and false. "
  "Index arguments outside an array, including negative ones, report false.",
  ["inputs"], "every key or index, every value type, direct or through references",
  "Getters are exercised only on the path of success, for two types.",
  ["pdf/dictionary.go", "pdf/array.go"], [("getters", "pdf/dictionary.go, pdf/array.go")], observe=["returned value and flag"])
p("C21", "Actions yield every URL, script, command and file reference they hold",
  "Extracting a document writes every URI (action, URI base, URL-type file specification, URLS name tree) to urls.txt, every JavaScript string or stream of an action to javascript.js, every file a launch action runs, with its parameters, to commands.txt, and every external file that an action or the EmbeddedFiles name tree refers to to files.txt with the all-zero hash. "
  "Actions are found under A, OpenAction, AA and Next, and this holds wherever the dictionary sits: at top level, nested in arrays or dictionaries, directly or by reference; nothing is written to these files that the document does not contain.",
  ["inputs"], "every action dictionary, every place of it in the object graph, every string content",
  "No existing test runs the extraction.",
  ["pdf/object.go", "pdf/action.go", "pdf/file.go"], [("recursive extraction", "pdf/object.go extract"), ("action and file specification handling", "pdf/action.go, pdf/file.go")], observe=["urls.txt", "javascript.js", "commands.txt", "files.txt"])
p("C22", "Embedded files are dumped intact under their hash, inside the output directory",
  "Every embedded file (embedded data of a file specification in an action or in the EmbeddedFiles name tree, XFA form) is written, byte for byte as decoded, to the output directory under the hexadecimal MD5 of its content, and files.txt maps that hash to the stated name. "
  "No file is created outside the output directory whatever names the document contains, and the fixed output files are never overwritten by extracted data.",
  ["inputs"], "every embedded content and every file name, including path-like ones",
  "No existing test runs the extraction.",
  ["pdf/output.go", "pdf/file.go", "pdf/object.go"], [("content-addressed dump", "pdf/output.go DumpFile"), ("embedded file lookup", "pdf/file.go Extract, pdf/object.go extract")], observe=["files created", "files.txt"])
p("C23", "Page text shown by any text operator is written in order, decoded by its font",
  "For every page, contents.txt receives, one line per operator in content order, the text shown by Tj, ', \" and TJ (all string elements of the TJ array, concatenated, wherever they stand in it) inside text objects, for single or multiple content streams. "
  "Text is decoded with the font last selected by Tf in that text object, and is passed through unchanged when no known font is selected.",
  ["inputs"], "every content stream, operator sequence, TJ array layout and font assignment",
  "No existing test extracts text.",
  ["pdf/page.go", "pdf/parser.go"], [("content interpreter", "pdf/page.go extract"), ("operand collection", "pdf/parser.go ReadCommand")], observe=["contents.txt"])
p("C24", "ToUnicode maps translate every mapped code and keep every other one",
  "A font's ToUnicode map translates each code of its bfchar entries to the given value and each code of a bfrange to the range's value advanced by the code's distance from the range start; codes are as wide as the map's source codes, and unmapped codes are passed through unchanged. "
  "Building the map takes time and memory bounded by the size of the map's text, not by the numeric extent of its ranges.",
  ["inputs"], "every map text, every code, every string",
  "max_cmap_size.pdf only checks that loading one map takes less than a second; no test decodes through a map.",
  ["pdf/font.go"], [("map parsing", "pdf/font.go NewFont"), ("decoding", "pdf/font.go Decode"), ("code value", "pdf/utility.go BytesToInt")], observe=["Font.Decode result", "contents.txt"])
p("C25", "Page and name trees are walked completely, once per node, and always end",
  "Walking a page tree or name tree visits every node reachable through Kids exactly once, in document order, and terminates for every graph of Kids references, including cycles, shared nodes, references to references, references back to the root, references to missing objects and nodes of the wrong type. A name that lacks its value in one node of a name tree does not shift the names and values of the others.",
  ["inputs"], "every finite graph of Kids references",
  "No existing test walks a tree.",
  ["pdf/dictionary.go"], [("visited sets", "pdf/dictionary.go ResolveKids, getNameTreeMap")], observe=["list of nodes", "name/value list"])
p("C26", "No input makes the parser crash or hang",
  "Opening, reading and extracting any byte sequence as a PDF ends without panicking, overflowing the stack or looping, with time and memory bounded by the size of the input and its decompressed streams; malformed values (wrong types, negative or huge numbers in widths, lengths, geometries, counts and offsets, truncated keys, self-referencing structures) are survived. ",
  ["inputs"], "every byte sequence up to the bound, and every assignment of types and numbers to the values the code interprets",
  "Fifteen tests run one truncated or looping file each under a one-second limit.",
  ["pdf/parser.go", "pdf/filters.go", "pdf/encryption.go", "pdf/font.go", "pdf/utility.go", "pdf/object.go", "pdf/logger.go"], [("end of input handling", "pdf/parser.go readers"), ("loop guards", "pdf/parser.go loadXref, pdf/reference.go resolve"), ("bounds checks", "pdf/filters.go, pdf/utility.go")], observe=["panic", "non-termination"])
p("C27", "raw.pdf holds every in-use object once, decrypted and decoded",
  "After a successful run raw.pdf contains, for every in-use object of the document and for nothing else, exactly one entry with its number, generation and decrypted value, followed by its decoded stream when it has one (strings and names are shown as they are, without escaping). "
  "The rest of the output does not depend on the order in which objects are visited, up to the order of lines.",
  ["inputs", "schedules"], "every set of objects and every visiting order",
  "No existing test runs the extraction.",
  ["pdf/pdf.go", "pdf/object.go"], [("dump loop", "pdf/pdf.go Parse"), ("serialisation", "pdf/object.go String")], observe=["raw.pdf"])
p("C28", "An existing output directory is replaced only when asked for",
  "The command line tool leaves an existing output path and everything below it untouched unless -f is given, and with -f (or through the library call) the directory is replaced by one holding only this run's results. "
  "If the input file cannot be opened nothing is created or removed, and if the directory cannot be replaced or one of the seven output files cannot be created the error is returned. Every file opened is closed again.",
  ["inputs", "configurations", "fault_sequences"], "every combination of flags, pre-existing paths and file system failures",
  "The command line tool and the output directory handling have no tests.",
  ["main.go", "pdf/pdf.go", "pdf/output.go"], [("overwrite guard", "main.go main"), ("open before create", "pdf/pdf.go Parse"), ("directory set-up", "pdf/output.go NewOutput")], observe=["file system effects", "returned error"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
