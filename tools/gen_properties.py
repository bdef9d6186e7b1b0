import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Write then read returns the dataset; read then write returns the bytes",
 "Writing any dataset whose headers are consistent with its traces and reading the file back with the same parameters (byte order, text encoding, sample format, header formats) returns equal textual, binary and extended headers, and for every trace an equal header and equal samples. Conversely, reading any such file and writing the reader out again with the same parameters reproduces the file byte for byte, and re-writing with another byte order or encoding preserves every header value and sample.",
 ["inputs","configurations"],"all datasets (trace count, per-trace sample counts, header field values, sample values, extended header pages) x 5 sample formats x 2 byte orders x 2 encodings x header formats (Rev 1 and custom)",
 "The round-trip tests use small hypothesis datasets with default formats and mostly one configuration, and never compare files byte for byte across byte orders, encodings and header formats.",
 ["segpy/writer.py","segpy/reader.py","segpy/toolkit.py","segpy/packer.py"],
 [("streamed writing of headers and traces","segpy/writer.py write_segy"),("scan and lazily read","segpy/reader.py create_reader")],
 ["write_segy output bytes","create_reader(...) properties, trace_header, trace_samples"])
p("C02","Files have the SEG-Y byte layout",
 "Every file written consists of a 3200-byte textual header, a 400-byte binary header, the extended textual pages, then for each trace a 240-byte header and its samples, with every named header field occupying the byte positions, width and signedness that the SEG-Y standard table gives it, in the requested byte order. Reading interprets every byte position the same way, so a field read from a foreign file is the integer stored at its standard position.",
 ["inputs","configurations"],"every binary and trace header field x every value it can hold x both byte orders x Rev 0 and Rev 1 formats, for files produced and files consumed",
 "Round-trip tests cannot see a layout error that the writer and the reader share (a swapped, shifted or resized field still round-trips).",
 ["segpy/binary_reel_header.py","segpy/trace_header.py","segpy/packer.py","segpy/toolkit.py","segpy/datatypes.py"],
 [("declarative field offsets","segpy/trace_header.py, segpy/binary_reel_header.py"),("compilation of the record layout","segpy/packer.py compile_struct")],
 ["bytes written by write_segy / write_binary_reel_header / write_trace_header","header values read"])
p("C03","Trace cataloguing finds exactly the traces in the file",
 "Opening a file finds exactly the traces obtained by walking from the end of the extended headers, each trace starting where the previous one's declared samples end; trace count, each trace's file position and sample count, and the maximum sample count are exact for any mixture of trace lengths, including zero-length traces and files with no traces. A final trace header that is incomplete is not counted.",
 ["inputs","configurations"],"all sequences of per-trace sample counts x sample formats x byte orders x extended header sizes x truncation points of the last trace",
 "Tests open fixed-length datasets; variable trace lengths, empty files and every truncation point of the tail are not enumerated, and the compact catalog representations hide errors that appear only for particular length patterns.",
 ["segpy/toolkit.py","segpy/reader.py","segpy/catalog.py"],
 [("sequential scan of trace headers","segpy/toolkit.py catalog_traces"),("compact catalogs","segpy/catalog.py CatalogBuilder")],
 ["catalog_traces() result","reader.num_traces, num_trace_samples, max_num_trace_samples, trace_indexes"])
p("C04","Random access to traces is exact and independent of history",
 "For every trace index and every valid sample range, the samples and header returned are exactly those stored for that trace in the file, whatever sequence of reads, slices, header reads or moves of the shared file position came before. Trace indexes outside the file and sample ranges outside the trace are rejected with ValueError, also regardless of history, and rejected or failed calls do not disturb later ones.",
 ["histories","inputs"],"all interleavings of sample reads, slices, header reads (full and partial formats), index lookups and external seeks on one reader, over all trace-length patterns and sample formats",
 "The tests issue single calls on fresh readers; they do not interleave operations, move the file position between calls, or check every (start, stop) pair against an independent decoding of the file.",
 ["segpy/reader.py","segpy/toolkit.py"],
 [("absolute positioning from catalogs before each read","segpy/reader.py SegYReader.trace_samples, trace_header")],
 ["trace_samples(i, start, stop)","trace_header(i)"],
 [("shared file position","moved by every read and by the caller","file object passed to create_reader")])
p("C05","Spatial indexing and dimensionality follow the trace headers",
 "A file is presented as 3D exactly when every trace has a distinct (inline, crossline) pair, otherwise as 2D exactly when every trace has a distinct CDP number, otherwise as unindexed; a forced dimensionality is honoured. The line or CDP index then maps each number (pair) present in the trace headers to the one trace carrying it and contains nothing else, and the inline, crossline and CDP number collections are exactly the sorted distinct values present.",
 ["inputs","configurations"],"all assignments of inline, crossline and CDP numbers (negative, sparse, permuted, duplicated, irregular, degenerate) to traces x forced dimensionality x trace header formats that define the fields at other offsets",
 "Tests generate only a few regular grids and compare against the same catalog code; irregular surveys, gaps, duplicates and forced dimensionality without a unique index are not covered.",
 ["segpy/reader.py","segpy/toolkit.py","segpy/catalog.py"],
 [("line and CDP catalogs","segpy/toolkit.py catalog_traces"),("dimensionality heuristic","segpy/reader.py create_reader"),("2D catalog compaction","segpy/catalog.py")],
 ["reader.dimensionality, trace_index, has_trace_index, inline_numbers, xline_numbers, cdp_numbers, inline_xline_numbers"])
p("C06","Compact catalogs are indistinguishable from the mapping they store",
 "A mapping built from any set of unique integer or integer-pair keys behaves as the immutable dictionary with those items whatever internal representation is chosen: length, iteration in key order (row- or column-major for pairs) without repeats, membership and lookup agree, including rejection of every key not present. Building from items with a repeated key yields no mapping, and the key bounds and reverse lookup offered for pair keys agree with the items.",
 ["inputs"],"all finite key/value assignments: regular, constant, linear, descending, irregular, singleton, empty, 1-D and 2-D",
 "Hypothesis tests construct each representation from parameters that already suit it; they do not compare the builder's choice with a dictionary over all small mappings and all absent keys.",
 ["segpy/catalog.py","segpy/util.py"],
 [("heuristic choice of representation","segpy/catalog.py CatalogBuilder.create"),("closed-form lookup","segpy/catalog.py Regular*, Linear*, *VariesQuickestCatalog2D")],
 ["mapping protocol of CatalogBuilder.create() results"])
p("C07","Sorted distinct sequences are exact sets in order",
 "Making a sorted distinct sequence from any collection of integers gives exactly its distinct elements in the requested sense (or the original sense when asked to preserve it), whether it is represented as a range or not, and indexing, search, membership, counting and reversal on it agree with the sorted list of its elements, as do slicing, equality and set algebra on ascending ones.",
 ["inputs"],"all finite integer collections incl. ranges of either direction, generators, empty and singleton x all senses x all probes",
 "Unit tests use a few literal lists; the switch between ranges, sets and reversed views at particular sizes and strides is where errors hide.",
 ["segpy/util.py","segpy/sorted_frozen_set.py","segpy/reversed_sequence_view.py"],
 [("compression to range","segpy/util.py make_sorted_distinct_sequence, reversed_range"),("binary search set","segpy/sorted_frozen_set.py"),("reversed view","segpy/reversed_sequence_view.py")],
 ["make_sorted_distinct_sequence()","SortedFrozenSet and reversed view protocols"])
p("C08","Header records pack and unpack by declared position for any format",
 "For any record format, packing places every field's value at its declared position with its declared width in the given byte order and zero elsewhere, and unpacking any buffer of the record's length assigns to every field the value stored at its declared position, independent of declaration order, inheritance, gaps or which subset of fields a partial format selects. Fields declared at the same position share one value and packing unequal values is refused; formats with partially overlapping fields, conflicting types at one position, no fields or too small a length are refused when the format is compiled.",
 ["programs","inputs"],"all header formats (sets of typed fields at positions, declared in any order, with inheritance, gaps, coincident fields, start offsets, fixed lengths, sub-formats) x field values x byte orders",
 "Tests try a handful of hand-written formats in offset order; declaration order, inheritance and coincident fields interact and are not enumerated.",
 ["segpy/packer.py","segpy/header.py"],
 [("layout compilation","segpy/packer.py compile_struct"),("one-to-one and shared field packers","segpy/packer.py"),("sub-format construction","segpy/header.py SubFormatMeta")],
 ["make_header_packer(format).pack / unpack","compile errors"])
p("C09","Header objects hold only valid values and are independent of each other",
 "A header field always holds a value its type allows: assigning or constructing with an out-of-range or unlisted value fails and leaves the previous value, unset fields show the declared default, and unknown field names are refused. Copies equal the original except for the requested updates, header equality is fieldwise, and no assignment to one header (or any number of created and discarded headers) ever affects another.",
 ["histories","inputs"],"all sequences of create, assign, copy, compare and discard operations on headers of every shipped and user-defined format, over boundary values of every field type",
 "Tests assign single values to single headers; aliasing between instances, defaults after failed assignment and boundary values of every field are not explored.",
 ["segpy/header.py","segpy/field_types.py","segpy/trace_header.py","segpy/binary_reel_header.py"],
 [("per-instance descriptors","segpy/header.py HeaderFieldDescriptor"),("range-checked integer types","segpy/field_types.py")],
 ["attribute reads and writes on headers, copy(), are_equal()"],
 [("field values","value per header instance and field","segpy/header.py")])
p("C10","The reader cache is transparent",
 "Opening a file through the cache always yields a reader equivalent to one produced by a fresh scan of the file actually passed with the parameters actually passed, whatever happened before: earlier opens with other parameters, edits, moves, copies or deletions of files, changes of working directory, caches shared between files, damaged, truncated or half-written cache entries (which can no longer be unpickled), or a cache location that cannot be used. Opening never alters the data file, and an unusable cache never prevents opening; only an entry that is a valid pickle of something else is reported as TypeError.",
 ["histories","crash_points","fault_sequences","configurations"],"all sequences of open (file, encoding, formats, byte order, dimensionality, cache directory), edit, copy, move, delete, chdir, and cache corruption/truncation/crash-during-save events",
 "Tests cover single open/reopen pairs; a stale or mismatched cache entry only shows after particular histories of opens and file changes.",
 ["segpy/reader.py","segpy/util.py"],
 [("content-and-parameter hash","segpy/util.py hash_for_file"),("pickle cache load/save","segpy/reader.py")],
 ["create_reader(..., cache_directory=...)","cache directory contents"],
 [("cache entries","pickled readers keyed by content hash","cache directory")])
p("C11","Pickling preserves headers, packers and readers",
 "Unpickling a pickled header, header packer or reader gives an object equivalent to the original: every field, including inherited ones, has the same value, packers produce and parse the same bytes, and readers give the same headers, samples and indexes at whatever point in their use they were pickled. Readers that cannot be restored (closed or unnamed file at pickling, missing file or different library version at unpickling) are refused with TypeError.",
 ["inputs","histories"],"all header formats and values, packers, readers of each dimensionality, pickled after any sequence of reads",
 "Existing tests pickle readers and compare a few attributes, and never pickle headers with inherited fields or non-default values.",
 ["segpy/header.py","segpy/packer.py","segpy/reader.py"],
 [("state capture and restore","__getstate__/__setstate__ in segpy/header.py, packer.py, reader.py")],
 ["pickle.loads(pickle.dumps(obj))"])
p("C12","Textual header codec and encoding detection",
 "Writing a textual header always emits exactly 3200 bytes: forty 80-byte cards in ASCII or EBCDIC, long lines cut, short or missing lines padded with that encoding's spaces and excess lines dropped; reading returns forty 80-character lines with the same characters. Text that the encoding cannot represent and unsupported encodings are refused; for a header whose text is ordinary (mostly letters, digits and spaces) the encoding is detected correctly, otherwise the detection reports no encoding rather than a wrong one.",
 ["inputs"],"all sequences of lines and characters (incl. every byte value of each code page), line counts 0..n, line lengths 0..n, both encodings; every byte-histogram around the detection threshold",
 "Tests use full 40x80 ASCII/EBCDIC blocks and uniform byte strings; ragged input, code-page corners and threshold boundaries are not enumerated.",
 ["segpy/toolkit.py","segpy/encoding.py"],
 [("card padding and encoding","segpy/toolkit.py write_textual_reel_header"),("frequency heuristic","segpy/encoding.py guess_encoding")],
 ["bytes written","lines read","guess_encoding result"])
p("C13","Extended textual headers are preserved and delimited exactly",
 "Formatting any text into extended header pages keeps every line of it, including blank ones, in order, splitting only lines over 78 characters, as pages of forty 80-byte CRLF-terminated cards, with a stop page appended when asked; writing then reading them back returns the same pages. When the binary header announces a fixed count exactly that many pages are read, when it announces a variable count reading stops after the first page carrying the stop stanza, and early stanzas, short files and wrongly shaped pages are refused; in every accepted case trace data begins exactly after the last page.",
 ["inputs"],"all texts (line lengths around 0, 78, multiples, blank lines, page-boundary counts) x declared counts (-1, 0, n) x stanza positions x file truncations x encodings",
 "Tests format a few short strings and read one stanza position; blank lines, exact page boundaries and mismatched counts are not covered.",
 ["segpy/toolkit.py"],
 [("page formatting","segpy/toolkit.py format_extended_textual_header"),("counted and until-stanza reading","segpy/toolkit.py read_extended_textual_headers"),("shape validation before writing","segpy/toolkit.py write_extended_textual_headers")],
 ["returned pages","bytes written","file position after reading"])
p("C14","The standard textual header template formats and parses consistently",
 "Formatting a standard textual header gives forty 80-character lines equal to the template with each named value placed, cut or padded in its own slot, blanks for omitted values, and the revision's end marker unless overridden; parsing such a header returns each supplied value, cut to its slot and stripped, under its name. Unknown names and wrongly shaped headers are refused.",
 ["inputs"],"all subsets of template fields x values of lengths around each slot width x revisions",
 "Tests format one example; slots adjacent to each other or at line ends, and every field's slot, are not compared to the template.",
 ["segpy/toolkit.py","segpy/textual_reel_header.py"],
 [("template slots","segpy/toolkit.py parse_template, format_standard_textual_header, parse_standard_textual_header")],
 ["returned lines and field mapping"])
p("C15","IBM floating point encoding is exact",
 "Decoding any four bytes gives exactly sign x fraction x 16^(exponent-64), and encoding a real number gives the representation obtained by truncating its magnitude to the 24-bit (hexadecimal-aligned) fraction, so the error is below one unit of the last place, sign and order are preserved, and decoding then encoding a normalised representation returns the same bytes. NaN, infinities, values beyond the range and non-zero values below it are refused with the documented error; packing and unpacking sequences is elementwise and byte-preserving.",
 ["inputs"],"all 2^32 four-byte patterns for decoding; all finite doubles (structured by sign, exponent and leading/trailing mantissa bits) for encoding",
 "Tests check examples and statistical tolerances of round trips; exact truncation at every exponent alignment, subnormals and range ends is not settled.",
 ["segpy/ibm_float.py","segpy/ibm_float_packer.py"],
 [("bit-level conversion","segpy/ibm_float.py ibm2ieee, ieee2ibm"),("sequence packer","segpy/ibm_float_packer.py")],
 ["ieee2ibm / ibm2ieee / IBMFloat constructors / pack_ibm_floats / unpack_ibm_floats"])
p("C16","IBM float numbers behave as the real numbers they denote",
 "Comparisons, equality, truncation, floor, ceiling, rounding, sign, negation, absolute value, integer ratio, fraction/exponent split, zero tests and normalisation of IBM floats agree with the exact real value denoted, for every representation including unnormalised ones and the many zeros. Arithmetic between IBM floats gives the IBM truncation of the double-precision result, and arithmetic with ordinary numbers gives the double-precision result (a float divided by an IBM float may also give its IBM truncation).",
 ["inputs"],"all pairs of four-byte representations, and mixed pairs with integers, rationals and doubles",
 "Tests sample normalised values from float ranges; unnormalised representations, zeros with nonzero exponents and exact integers are not covered.",
 ["segpy/ibm_float.py"],
 [("numeric protocol","segpy/ibm_float.py IBMFloat")],
 ["operators and methods of IBMFloat"])
p("C17","Progress reports stay within zero and one and finish at one",
 "While reading or writing, the progress callback receives only numbers between zero and one that never decrease, and its last call receives exactly one, for every file including empty, truncated and cached ones. A progress argument that is not callable is refused, and an exception raised by the callback propagates without corrupting what was already written or the data file read.",
 ["inputs","fault_sequences"],"all files (trace counts, lengths, truncations) x read/write/cached open x callback failure at any call",
 "Tests only check that the callback is called with 1 at some point.",
 ["segpy/toolkit.py","segpy/reader.py","segpy/writer.py"],
 [("callback invocations","segpy/toolkit.py catalog_traces, segpy/writer.py write_segy, segpy/reader.py create_reader")],
 ["sequence of callback arguments"])
p("C18","Unsuitable arguments are refused with the documented error and no effect",
 "Opening a closed, text-mode, unseekable or too short file, or passing an unknown byte order, dimensionality or non-callable progress, and writing with an unsupported encoding, a mismatched header type or text the encoding cannot hold, is refused with the documented exception type. A refused open leaves the file, its position and the cache untouched, and a write refused for its encoding or progress argument writes nothing.",
 ["inputs","configurations"],"all combinations of valid and invalid arguments of opening and writing",
 "Tests try one invalid argument at a time and do not look at side effects.",
 ["segpy/reader.py","segpy/writer.py","segpy/toolkit.py","segpy/revisions.py"],
 [("argument validation","segpy/reader.py create_reader, segpy/writer.py write_segy")],
 ["exception type","file bytes and position","cache directory"])
p("C19","Writing is streaming and append-only, and partial files never yield wrong data",
 "Writing asks the dataset for one trace at a time in index order and only ever appends, so at any interruption the bytes written are a prefix of the complete file. Reading a file cut at any byte either is refused or yields a reader whose every successfully returned header and sample equals that of the complete file, with reads of missing data raising EOFError.",
 ["crash_points","fault_sequences","inputs"],"every byte position at which a write can be cut or a dataset/file operation can fail x datasets x sample formats",
 "No test interrupts a write or truncates a file at each position.",
 ["segpy/writer.py","segpy/toolkit.py","segpy/reader.py"],
 [("sequential writes","segpy/writer.py write_segy"),("short-read detection","segpy/toolkit.py read_binary_values, read_textual_reel_header")],
 ["sequence of file writes and dataset accesses","readers of truncated files"],
 [("bytes written so far","prefix of the complete file","output file")])
p("C20","Array extraction places every sample and header value exactly",
 "Arrays extracted for trace headers, inlines, crosslines, time slices or single traces contain at each position the value stored in the file for the corresponding trace and sample number, in increasing number order for the requested subset (all, list, range or slice), and the null value or mask exactly where the survey has no such trace or the trace has no such sample. Requests for numbers not in the survey are refused with ValueError.",
 ["inputs","configurations"],"all small 3D surveys (complete or with gaps, variable trace lengths) x sample formats x every subset selector x null/masked",
 "There are almost no tests of extraction, and none with gaps, short traces or non-contiguous selectors.",
 ["segpy-ext/segpy_numpy/segpy_numpy/extract.py","segpy-ext/segpy_numpy/segpy_numpy/util.py","segpy-ext/segpy_numpy/segpy_numpy/dtypes.py"],
 [("array population","segpy_numpy/extract.py"),("subset selection","segpy_numpy/util.py ensure_superset")],
 ["returned arrays, masks and dtypes"])
p("C21","Delegating datasets are faithful views",
 "A dataset that delegates to another exposes exactly the source's headers, traces, counts, indexes, encoding and byte order except for what it overrides, through any depth of delegation; writing it produces the file of the source with exactly the overridden aspects changed.",
 ["programs","inputs"],"all combinations of overridden members and nesting depths over all datasets",
 "Tests check single-level delegation attribute by attribute with mocks and never the written file.",
 ["segpy/dataset.py","segpy/writer.py"],
 [("forwarding","segpy/dataset.py DelegatingDataset")],
 ["properties and methods of the view","write_segy(view)"])
p("C22","The command line reports what the reader reports",
 "The metadata command prints one JSON object with the trace count, dimensionality, sample format and maximum samples per trace of the given file, and the report command prints the file name, the trace count, the sample format (its description), the dimensionality, the revision, the CDP or inline/crossline counts, the textual header lines (without their three character card prefix) and the extended textual header, for every readable file of any dimensionality and whatever state the reader cache beside the file is in. A file which is not readable ends the command with a failure status and no report of facts. Both commands leave the data file unchanged.",
 ["inputs","histories"],"all readable files of each dimensionality, revision and encoding, first and repeated (cached) invocations",
 "There are no tests of the command line.",
 ["segpy/cli.py","segpy/reader.py"],
 [("commands","segpy/cli.py handle_metadata, report")],
 ["standard output and exit status"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
