"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))


D = "src/driver/driver.rs"
p("C01", "Merged output is in time order and loses, repeats or alters no row",
  "When several time-ordered inputs are merged into one output, the rows of the output never go back in time, every row of every input appears in it exactly once with its timestamp and values unchanged, and rows of the same input keep their order. This holds for any number of inputs, any lengths and any timestamps, equal ones included.",
  ["inputs", "configurations"], "all sets of inputs whose timestamps never decrease within an input (counts, lengths, ties and 64-bit timestamp values arbitrary)",
  "The merge tests run one pair of small files with fixed timestamps; interleavings, ties, exhausted inputs and extreme timestamps are not reached.",
  [D, "src/driver/source_row_buffer.rs"], [("smallest pending timestamp is written next", D + ": Driver::drive, get_next_buffer_index"), ("one-row look-ahead per source", "src/driver/source_row_buffer.rs: SourceRowBuffer")],
  [("row buffers", "the next unwritten row of every source that still has one", D)], ["rows reaching the sink after the merge"])
p("C02", "Each input's rows enter the pipeline configured for that input",
  "The rows of the i-th input are processed by the i-th processing chain and by no other, whatever the number of inputs and however early any of them ends. The header a chain was set up with is that of the input whose rows it receives.",
  ["inputs", "configurations"], "all numbers of inputs and chains, all row counts per input and all timestamps",
  "Existing tests use a single input, or several inputs whose chains are interchangeable, so a swap cannot be seen.",
  [D], [("pairing of sources with chain ids", D + ": Driver::get_row_buffers"), ("headers handed to chains in input order", "src/chopper/header_graph.rs: HeaderGraph::process_header")],
  [("chain id", "chain a source's rows enter", "src/driver/source_row_buffer.rs: SourceRowBuffer")], ["rows and headers seen by the first stage of each chain"])
p("C03", "A begin/end range keeps exactly the rows with begin <= time < end",
  "With a begin and/or end time set, the output consists of exactly those input rows whose timestamp is at or after begin and strictly before end. Inputs that are empty, lie wholly outside the range or only partly inside it are handled without failure, and do not affect rows of other inputs.",
  ["inputs", "configurations"], "all begin/end values (also absent, equal or reversed), all numbers of inputs and rows, all non-decreasing timestamps",
  "No test sets a time range that cuts an input, and none has an input without rows in range.",
  ["src/driver/source_row_buffer.rs", D], [("range classification per row", "src/driver/source_row_buffer.rs: filter_data_range, match_next_row"), ("end of a source", D + ": Driver::drive")], (), ["rows reaching the sink", "the result of the run"])
p("C04", "Splits, tees, merges and multi-row stages route rows exactly",
  "In any pipeline, every row a stage hands on reaches each stage downstream of it exactly once and in order: a split sends a copy to every listed branch, a merge sends it to the target branch, and both then continue along the rest of their own chain. A stage that drops a row stops it there only, and a stage that emits several rows has all of them carried on in the order given.",
  ["inputs", "configurations"], "all pipeline graphs built from stages (dropping, passing, multiplying), splits, tees and merges within the size bound; all rows",
  "The split and multi-row tests each run one graph on one file; combinations such as a multiplying stage before a tee are not covered.",
  [D, "src/chopper/data_graph.rs"], [("row propagation", D + ": Driver::process_row"), ("graph lookup", "src/chopper/data_graph.rs: DataGraph")], (), ["rows at every stage"])
H_ = "src/chopper/header_graph.rs"
p("C05", "Stages see the header their rows have; inconsistent graphs are refused",
  "Every stage of a pipeline is set up once, with the header produced by the stages upstream of it, and splitting a header never lets one branch's changes show in another. Merged inputs that differ in any column name or type, in number or order of columns, and graphs whose merges or chain references do not add up, are refused with an error before any row is processed.",
  ["inputs", "configurations"], "all graphs of header-changing stages, splits and merges within the size bound; all headers within the bound",
  "Tests only build valid graphs on one header; wrong headers and wrong counts are never tried.",
  [H_, "src/driver/merge_join.rs", "src/driver/split.rs", D], [("header propagation", H_ + ": match_remove_chain, check_merge_header"), ("header equality", "src/driver/merge_join.rs: MergeJoin::check_header")], [("unprocessed count", "headers a merge still waits for", H_ + ": HeaderCountTracker")], ["headers seen by stages", "result of setting up the pipeline"])
p("C06", "Filters keep exactly the matching rows and keep columns aligned",
  "A row filter passes a row unchanged exactly when the value in its column satisfies the comparison and drops it otherwise; column deletion removes exactly the named column from the header and from every row and leaves all others in place and in order. Columns are found by name without regard to ASCII case, the first match wins, an unknown name is an error, and filters may be chained in any order.",
  ["inputs", "configurations"], "all rows, column names and filter values within the size bound; all chains of filters within the bound",
  "The filter test runs one chain on one file with string columns.",
  ["src/filter/column_filter_delete_col.rs", "src/filter/row_filter_equal_value.rs", "src/filter/row_filter_greater_value.rs"], [("column lookup and filtering", "src/filter/*.rs: process_header, write_row")], (), ["header and rows after the filters"])
p("C07", "Comparison of field values is lawful and agrees with the values",
  "Equality of field values is symmetric and transitive, holds exactly for equal values of the same kind (a missing value equals only a missing value), and ordering agrees with the natural numeric or string order of the values and with equality. Values of different kinds are never equal.",
  ["inputs"], "all pairs and triples of field values (numbers over their full range, floats including NaN, infinities and signed zeros, strings within the length bound)",
  "No test compares field values of any kind but equal-length strings.",
  ["src/chopper/types.rs"], [("comparison", "src/chopper/types.rs: PartialEq and PartialOrd for FieldValue")], (), ["results of comparing two values", "rows passed by value filters"])
DS = "src/write/dc_sink.rs"
DR = "src/source/dc_source.rs"
p("C08", "Data written in the binary format reads back unchanged",
  "Whatever header and rows are written to a binary (dc) file, reading that file gives back the same column names, types and order and the same rows with the same timestamps and values, missing values staying missing. This holds for every supported value type, any number of columns and strings of any length.",
  ["inputs"], "all headers and rows within the bounds: every type, every null pattern, column counts around multiples of 8, empty strings and strings around the 32767-byte length-encoding boundary, empty column names excepted (they are replaced by generated ones)",
  "No test reads back what the binary sink writes.",
  [DS, DR, "src/util/dc_util.rs"], [("encoding", DS + ": write_header, write_row"), ("decoding", DR + ": DCSource::new, next_row"), ("null bitmap size and string lengths", "src/util/dc_util.rs: get_bitset_bytes, write_string_value")], [("bitset_bytes", "size of the null bitmap in front of each row", DS + ", " + DR)], ["header and rows read back"])
p("C09", "Malformed or truncated binary input is an error, never a crash or silent loss",
  "Reading any byte sequence as binary (dc) input either yields rows or reports an error; it never crashes, hangs, or asks for memory out of proportion to the input. Input cut off in the middle of a row, or whose reader fails, ends in an error and is never taken for a normal end of data, while input that ends exactly between rows ends normally with all its rows.",
  ["inputs", "fault_sequences"], "all byte strings in place of header and row parts within the length bound; every cut point of valid files; read errors at every position",
  "No test feeds malformed or truncated binary input.",
  [DR, "src/util/dc_util.rs"], [("row reading", DR + ": DCSource::next_row, read_string"), ("header reading", DR + ": DCSource::new; src/util/dc_util.rs: FieldDescriptor::new")], (), ["result of opening and of reading each row"])
CS = "src/source/csv_source.rs"
p("C10", "Every CSV line becomes one row holding that line's fields",
  "Reading CSV input yields one row per data line, in order, whose values are that line's fields in their columns; the row always has one value per column of the header, values never carry over from another line, and a line with fewer or more fields than the header has columns is not a reason to crash. An input without any data line is reported, not crashed on.",
  ["inputs", "configurations"], "all CSV texts within the length bound (ragged and blank lines, quoting, trailing newline or not, CRLF, with and without header) and delimiters",
  "Tests read well-formed rectangular files only.",
  [CS], [("record to row", CS + ": CSVSource::new, update_row, next_row")], [("next_row", "row buffer reused between lines", CS + ": CSVSource")], ["header and rows of the source"])
p("C11", "CSV shape detection follows the text: delimiter, header, types",
  "The detected delimiter is the candidate character occurring most often in the first line (the earlier candidate on ties), and an explicitly given delimiter is accepted exactly when it is a single ASCII character or the escape for tab. A header is assumed only when there are two lines and the kinds of their fields differ; a field counts as integer or number exactly when it can be read as one, and a column of mixed kinds takes the narrowest kind covering all.",
  ["inputs"], "all first and second lines, delimiter strings and field texts within the length bound, non-ASCII text included; all sequences of kinds",
  "Unit tests try a handful of ASCII strings.",
  ["src/util/csv_util.rs"], [("detection", "src/util/csv_util.rs: guess_delimiter, guess_has_header, guess_type, guess_common_type, parse_into_delimiter")], (), ["results of the detection functions", "columns of a CSV source with detection on"])
CW = "src/write/csv_sink.rs"
p("C12", "CSV output prints header and rows exactly as configured",
  "CSV output has one header line and one line per row, in which the time column (if enabled, first, under the configured name) and the values appear in order, separated by the configured delimiter in header and rows alike, missing values as empty fields and numbers so that they read back to the same number. Epoch times are the timestamp in the configured unit, rounded down; unsupported value kinds are reported as errors.",
  ["inputs", "configurations"], "all headers, rows and output configurations within the bounds (delimiter, time column on/off, name, epoch units, all 64-bit timestamps, all integer values)",
  "Reference-file tests cover one delimiter and one time format with string columns.",
  [CW, "src/source/csv_configs.rs", "src/write/factory.rs"], [("formatting", CW + ": write_csv_header, write_row"), ("configuration defaults", "src/source/csv_configs.rs: CSVOutputConfig::new")], (), ["bytes of the output file"])
CT = "src/source/csv_timestamp.rs"
p("C13", "Epoch timestamps convert exactly or are refused",
  "An integer timestamp in seconds, milliseconds, microseconds or nanoseconds is converted to exactly that instant in nanoseconds; one that does not fit, or text that is not a number, is an error and never a wrong time or a crash. When the unit is not given it is chosen by magnitude from the documented ranges, which never overlap, and a value outside all of them is refused.",
  ["inputs"], "all digit strings up to 20 digits with each unit, given or detected, as a CSV timestamp",
  "Tests use a few present-day timestamps.",
  [CT], [("scaling", CT + ": get_timestamp"), ("unit detection", CT + ": get_timestamp_fmt_auto_with_index, RANGE_*")], (), ["row timestamps of a CSV source"])
p("C14", "The timestamp column and unit are chosen by the documented priority",
  "With automatic detection the timestamp comes from, in this order: a column named time plus a unit; columns named date and time together, or date alone; a column named time; the same with a common prefix in front; otherwise the first column; names compare without regard to case and the leftmost candidate of a kind wins. An explicitly configured column name or index is used as given, and one that does not exist is reported as an error rather than crashing.",
  ["inputs", "configurations"], "all headers of up to three columns with names drawn from the recognised patterns and arbitrary short strings; all explicit column configurations",
  "Tests name one or two column layouts.",
  [CT], [("column choice", CT + ": get_timestamp_col")], (), ["row timestamps of a CSV source"])
TU = "src/util/timestamp_util.rs"
p("C15", "Begin and end times are parsed to the instant they denote",
  "A begin or end argument given as epoch digits, as YYYY, YYYYMM or YYYYMMDD, as date and time in any of the accepted separators with optional fraction, or with an explicit UTC offset denotes exactly the corresponding instant, and text that denotes no such instant is refused. Parsing never crashes and never yields an instant other than the one written.",
  ["inputs"], "all digit strings up to 20 digits; all calendar dates and times (fields symbolic) in each accepted layout with fixed-offset zone; short arbitrary strings",
  "Unit tests check about twenty literal strings.",
  [TU, "src/chopper/types.rs"], [("argument parsing", TU + ": parse_datetime_range_element")], (), ["resulting range bounds"])
p("C16", "Local date/times map to the right instant; impossible ones are refused",
  "A local date and time in the configured time zone is converted to the instant at which that zone's clocks show it, and converting an instant for output shows those clocks again; local times that a clock change skips or repeats are refused, as is needing a zone when none is configured. Instants before 1970 are not silently turned into other instants.",
  ["inputs"], "all local date/times of a range of years around clock changes in selected zones; all 64-bit instants for output within the supported range",
  "One test converts one format in one zone.",
  ["src/util/tz.rs", CT], [("conversion", "src/util/tz.rs: from_local_datetime, timestamp"), ("date parsing", CT + ": get_timestamp")], (), ["row timestamps read with a zone", "time column of CSV output"])
RD = "src/util/reader.rs"
p("C17", "Previewing and buffering never change the bytes read",
  "Reading through the previewing, buffering reader yields exactly the bytes of the underlying stream, in order and once, however short the underlying reads are and whatever sizes the consumer asks for; errors of the stream are passed on and lose no bytes already read. The preview shows the leading bytes and exactly the complete lines (without line ends) they contain, or no lines at all if these are not valid text.",
  ["inputs", "fault_sequences", "schedules"], "all byte contents within the bound, all sequences of short reads, all consumer request sizes, read errors at any point",
  "Unit tests read one fixed text through a reader that never reads short.",
  [RD], [("buffer refill", RD + ": ChopperBufReader::fill_buffer, fill_buf, read"), ("preview lines", RD + ": ChopperBufPreviewer")], [("pos, cap", "unread part of the buffer", RD + ": ChopperBufReader")], ["bytes and lines seen by the consumer"])
SF = "src/input/single_file.rs"
p("C18", "Input format is chosen by override, then name, then contents",
  "An explicit format override is obeyed; otherwise the file name's extensions (compression first, then data format) decide, and only if they do not, the leading bytes: binary data is recognised by its signature, compressed data by its magic number, and readable text is taken as CSV. Among several handlers able to take a path or format the first one registered, user-supplied ones before built-in ones, is used and no other is opened.",
  ["inputs", "configurations"], "all overrides and names built from the known extensions, all leading bytes of the stream, all registrations of handlers within the bound",
  "Tests use .csv and .csv.gz files and no overrides or user-supplied handlers.",
  [SF, "src/input/input_factory.rs", "src/decompress/decompress.rs", "src/source/dc_factory.rs", "src/source/csv_factory.rs", "src/transport/streaming/previewer_factory.rs", "src/transport/seekable/seekable_factory.rs"],
  [("dispatch", SF + ": create_source_from_previewer"), ("magic numbers", "src/decompress/decompress.rs: is_compressed_using_previewer"), ("handler order", "src/input/input_factory.rs: create_default_source_factories")], (), ["which handler creates the source", "header and rows of the source"])
Z = "src/decompress/zip.rs"
p("C19", "Single-file zip archives are opened exactly, all others refused",
  "For any well-formed archive holding one file, whatever its name, comment, extra fields and 64-bit extensions, the reader yields exactly that file's bytes and name. Characters outside ASCII in a name not marked as UTF-8 are shown as replacement characters. Archives with more or fewer files, several disks, encryption, unknown methods or wrong record signatures, cut off archives and bytes that merely begin like an archive are refused with an error, and nothing crashes.",
  ["inputs"], "all archives within the bounds: stored data, comments, names and extra fields of symbolic content and length; arbitrary bytes in each header",
  "No test opens a zip archive.",
  [Z], [("directory search and headers", Z + ": find_eocdr_and_prepare_to_read, EndOfCentralDirRecord::read, CentralDirHeader::read"), ("extra fields", Z + ": read_extra_field")], (), ["bytes, name or error from opening an archive"])
p("C20", "Corrupted archive contents never pass for good data",
  "When the stored checksum of an archived file does not match the data actually read, reading it to the end reports an error; when it matches, reading never does. The outcome does not depend on how the data is split over reads.",
  ["inputs", "fault_sequences"], "all contents and checksums within the bound; all sequences of request sizes",
  "No test covers checksums.",
  ["src/decompress/crc32.rs", Z], [("running checksum", "src/decompress/crc32.rs: Crc32Reader::read")], [("hasher", "checksum of the bytes delivered so far", "src/decompress/crc32.rs")], ["result of reading to the end"])
MF = "src/source/multi_file_source.rs"
p("C21", "Files read as one input present one set of columns",
  "Reading several files as one input yields the rows of each file in turn, each rearranged to the columns of the first (or given) header by column name, extra columns dropped. A file lacking a column, or having it with another type, is refused with an error.",
  ["inputs", "configurations"], "all headers (names, types, order, extra columns) and rows within the bound, any number of files within the bound, empty files included",
  "A unit test checks the column mapping on five fixed headers; rows are never checked with it.",
  [MF], [("column mapping", MF + ": check_headers_match_and_return_swap_map"), ("row rearrangement", MF + ": next_row")], [("swap_map", "column permutation for the current file", MF)], ["header and rows of the combined source"])
p("C22", "A directory input visits each of its files once, in name order",
  "A directory given as input is read as its plain files, each exactly once, in ascending order of name whatever order the system lists them in; subdirectories are not descended into. Something that is not a directory is refused.",
  ["inputs", "configurations"], "all directory listings within the bound (names, order, which entries are directories)",
  "One test lists one directory.",
  ["src/input/files_in_dir_provider.rs", "src/transport/dir/file.rs"], [("listing", "src/input/files_in_dir_provider.rs: FilesInDirPathProvider::new")], (), ["sequence of paths"])
p("C23", "Removing several elements keeps exactly the others, in order",
  "Removing a sorted list of positions from a list leaves exactly the elements at the other positions, in their original order.",
  ["inputs"], "all lists and all sorted sets of positions within the bound",
  "A unit test tries seven cases on one list of five elements.",
  ["src/util/remove_multiple.rs"], [("in-place rotation", "src/util/remove_multiple.rs: remove_multiple")], (), ["the list afterwards"])
p("C24", "File comparison says same exactly when the contents are equal",
  "Comparing two files answers same exactly when they hold the same bytes, whatever their lengths relative to each other and to internal buffer sizes; a missing file is an error.",
  ["inputs", "schedules"], "all pairs of contents within the bound, lengths around the internal buffer size, short reads included",
  "The comparison is only used to check other tests' outputs.",
  ["src/util/file.rs"], [("comparison loop", "src/util/file.rs: are_contents_same")], (), ["the answer"])
p("C25", "Compressed streams deliver the original bytes or an error",
  "A well-formed compressed stream in any supported format yields exactly the original bytes, however reads are sized; a truncated or corrupted one ends in an error rather than a short or wrong result taken as complete.",
  ["inputs", "fault_sequences"], "all payloads within the bound in the formats' stored-block encodings; every truncation point; all request sizes",
  "One test reads one gzip file.",
  ["src/decompress/decompress.rs", "src/decompress/zst.rs"], [("decoder adapters", "src/decompress/decompress.rs: decompress; src/decompress/zst.rs: ZstReader::read")], (), ["bytes or error from the decompressing reader"])
p("C26", "HTTP inputs stream the response body or report the failure",
  "An input given as a URL yields exactly the response body on success, and an error naming the status otherwise; a body that ends before its announced end is an error, not the end of the input.",
  ["inputs", "fault_sequences"], "all servers' responses", "No test uses the network.",
  ["src/transport/streaming/http.rs"], [("request", "src/transport/streaming/http.rs: HttpTransport::open")])
CC = "src/chopper_cli.rs"
p("C27", "The command line means what its help says, end to end",
  "Each option has the documented effect on what is read and written: inputs and format overrides pair up in order with the last override applying to the rest, the time range, delimiter, header and timestamp options reach the stage they name, output type follows the output name, and conflicting or invalid values are refused with an error instead of crashing. The bytes written are the input rows in range, merged and formatted as configured.",
  ["configurations", "inputs"], "all combinations of option values within the bound with small CSV and binary inputs of symbolic content",
  "No test runs the command line.",
  [CC, "src/cli_app.rs"], [("argument mapping", CC + ": parse_cli_args, setup_graph, parse_csv_input_config, parse_csv_output_config"), ("option declarations", "src/cli_app.rs: create_cli_app")], (), ["output file", "result of the run"])
p("C28", "Read and write failures surface and buffered output is flushed",
  "If a source, stage or output fails at any point, the run reports an error; it never ends as a success with rows missing. When a run succeeds, everything handed to each output has been flushed to it, whatever inputs ended first or were empty.",
  ["fault_sequences", "inputs"], "a failure at every read, write and flush position within the bound; all row counts and timestamps",
  "No test injects a failure.",
  [D, CW, DS, "src/error.rs"], [("error propagation", D + ": drive, process_row, flush"), ("flush at end of source", D + ": flush")], (), ["result of the run", "events at each sink"])

if __name__ == "__main__":
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(f, "w") as h:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            h.write(json.dumps(x) + "\n")
