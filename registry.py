"""What decides each property: harness modules, harnesses, bounds, assumptions."""

COMMON_ASSUMPTIONS = [
    "the LLVM IR rustc emits for the current tree (nightly, -O2, overflow checks on, vectorisers off) means what the language reference says; it is regenerated on every run",
    "the symbolic executor in symex/ implements that IR faithfully: a sample of path models is replayed in a native build on every run and must agree",
    "z3 answers are right",
    "allocation succeeds for sizes up to 1 MiB symbolic / 64 MiB concrete; a larger request is reported as an outcome of its own",
    "HashMap hashing is replaced by a constant, so map iteration order is one particular order",
]


def H(name, **k):
    k["name"] = name
    return k


PROPS = {
    "C02": dict(mods=["d_driver"], bounds="up to 4 inputs, up to 2 rows each, all 64-bit timestamps and ranges", harnesses=[
        H("h_pair_2", covers=["rows on several chains"], bounds="2 inputs x 0..2 rows"),
        H("h_pair_3", bounds="3 inputs x 0..1 rows"),
        H("h_pair_4", bounds="4 inputs x 0..1 rows"),
        H("h_pair_many", bounds="5..17 inputs, one timestamp any"),
    ]),
    "C04": dict(mods=["d_graph"], bounds="nine graph shapes with up to 7 stages, 3 rows, any one stage emitting 0..3 rows per row; arbitrary graphs of up to 3 chains", harnesses=[
        H("h_route", covers=["fan out"], bounds="9 shapes, 2 rows, one stage emits 0..3 rows for each row"),
        H("h_route_long", covers=["fan out"], bounds="9 shapes, 3 rows, one stage emits 0..2 rows for each row"),
        H("h_route_wide", covers=["wide"], bounds="9 families of graphs of 3..33 chains, stages, sources or rows"),
        H("h_route_burst", covers=["burst"], steps=4_000_000_000, bounds="5 shapes, one stage emits 4..1025 rows for one row"),
        H("h_any_graph_2", covers=["accepted", "refused"], bounds="any 2 chains of up to 2 nodes, 1..2 sources"),
        H("h_any_graph_3", covers=["accepted", "refused"], bounds="any 3 chains of up to 1 node, 1..3 sources"),
        H("h_any_graph_3x2", tier="thorough", time_t=900, bounds="any 3 chains of up to 2 nodes, 1..3 sources"),
    ]),
    "C05": dict(mods=["d_graph"], bounds="", harnesses=[
        H("h_headers", covers=["headers"], bounds="five graph shapes"),
        H("h_merge_headers_2", covers=["accepted", "refused"], bounds="2 headers of 0..2 columns, 1-character names, 3 types"),
        H("h_merge_headers_3", covers=["accepted", "refused"], bounds="3 headers of 0..1 columns"),
        H("h_merge_headers_wide", covers=["accepted", "refused"], bounds="2..17 headers of 1..256 columns, one difference anywhere"),
        H("h_any_graph_2", covers=["accepted", "refused"], bounds="any 2 chains of up to 2 nodes, 1..2 sources"),
        H("h_any_graph_3", covers=["accepted", "refused"], bounds="any 3 chains of up to 1 node, 1..3 sources"),
        H("h_counts_fit", bounds="0..3 sources, headers, chains"),
    ]),
    "C01": dict(mods=["d_driver"], bounds="up to 17 inputs; rows per input as each harness says; all 64-bit timestamps", harnesses=[
        H("h_merge_2x3", covers=["interleaved"], bounds="2 inputs x 3 rows"),
        H("h_merge_3x2", covers=["interleaved"], bounds="3 inputs x 2 rows"),
        H("h_merge_any2", covers=["interleaved"], bounds="2 inputs x 1..3 rows"),
        H("h_merge_2x5", covers=["interleaved"], bounds="2 inputs x 5 rows"),
        H("h_merge_5x1", bounds="5 inputs x 1 row"),
        H("h_merge_3x3", covers=["interleaved"], bounds="3 inputs x 3 rows"),
        H("h_merge_4x2", covers=["interleaved"], tier="thorough", bounds="4 inputs x 2 rows"),
        H("h_merge_many", bounds="5..17 inputs x up to 2 rows, one timestamp any"),
        H("h_merge_long", bounds="1..2 inputs x up to 33 rows, one timestamp any"),
        H("h_merge_huge", covers=["interleaved"], bounds="1..3 inputs x 100..257 rows, 33 x 3, 129 x 2; one timestamp any near its place, a range that begins and ends anywhere near some rows"),
        H("h_merge_many_rows", steps=4_000_000_000, covers=["interleaved"], bounds="1 input x 65600 rows and 2 x 32900, one timestamp any near its place, with and without a range"),
    ]),
    "C03": dict(mods=["d_driver"], bounds="", harnesses=[
        H("h_merge_empty"), H("h_range_1"), H("h_range_2"), H("h_range_3"),
        H("h_range_many", bounds="5..17 inputs, one timestamp any, any range"),
        H("h_range_long", bounds="1..2 inputs x up to 33 rows, one timestamp any, any range"),
        H("h_merge_huge", covers=["interleaved"], bounds="1..3 inputs x 100..257 rows, 33 x 3, 129 x 2; one timestamp any near its place, a range that begins and ends anywhere near some rows"),
        H("h_range_2_deep", tier="thorough", time_t=900, bounds="2 inputs, more rows"),
        H("h_range_3_deep", tier="thorough", time_t=900, bounds="3 inputs, more rows"),
    ]),
    "C06": dict(mods=["c06_filter"], bounds="", harnesses=[
        H("h_filter_int", covers=["passed", "dropped"], bounds="integer kinds, every value and limit"),
        H("h_filter_float", covers=["passed", "dropped"], bounds="double and float, every bit pattern"),
        H("h_filter_string", covers=["passed", "dropped"], bounds="ASCII strings up to 2 characters"),
        H("h_filter_missing", covers=["dropped"], bounds="missing value against every kind of limit"),
        H("h_filter_rows", bounds="4 rows, every value"),
        H("h_filter_chain_1", covers=["passed", "unknown name"], bounds="3 columns, 1 filter, every ASCII name of 2 characters"),
        H("h_filter_chain_2", covers=["passed", "unknown name"], bounds="3 columns, 2 filters, every ASCII name of 1 character"),
        H("h_filter_chain_3", covers=["passed", "unknown name"], bounds="3 columns, 3 filters, every ASCII name of 1 character"),
        H("h_filter_wide", covers=["passed", "unknown name"], bounds="4..256 columns, 1..9 filters on any of them"),
        H("h_filter_string_long", covers=["passed", "dropped"], bounds="strings of 2..1026 characters, one symbolic place"),
        H("h_filter_rows_long", bounds="8..257 rows"),
        H("h_filter_accents", bounds="9 pairs of column names beyond ASCII"),
    ]),
    "C07": dict(mods=["c07_values"], bounds="", harnesses=[
        H("h_value_eq", covers=["equal", "different"], bounds="every pair of kinds, every content, strings up to 2 ASCII characters"),
        H("h_value_order", covers=["less", "greater", "unordered"], bounds="as above, same kind"),
        H("h_value_missing", bounds="every kind against a missing value"),
        H("h_value_kinds", allow=("exit",), bounds="every pair of different kinds"),
        H("h_value_transitive", covers=["three equal", "three ordered"], bounds="three values of the same kind"),
        H("h_value_long", covers=["less"], bounds="long strings differing at one place"),
    ]),
    "C08": dict(mods=["c08_dc"], bounds="", harnesses=[
        H("h_dc_kinds_1", covers=["read back"], bounds="1 column of every type, 2 rows, every value, missing or not"),
        H("h_dc_kinds_2", covers=["read back"], bounds="2 columns of every type, 1 row"),
        H("h_dc_wide", bounds="0..65 columns at bitset boundaries, any one missing, 3 rows"),
        H("h_dc_missing_9", bounds="9 columns, every set of missing ones"),
        H("h_dc_strings", bounds="strings of 0..32769 bytes at boundaries"),
        H("h_dc_strings_long", covers=["long"], bounds="strings of 65534..70001 bytes"),
        H("h_dc_unicode", covers=["utf8"], bounds="every valid UTF-8 of 4 bytes"),
        H("h_dc_unsupported", bounds="unsupported kinds"),
        H("h_dc_wide_mixed", covers=["wide"], bounds="31..300 columns of all kinds mixed"),
        H("h_dc_very_wide", covers=["very wide"], steps=200000000, bounds="1001..65537 columns"),
        H("h_dc_names", bounds="column names of 1..70000 bytes"),
        H("h_dc_rows", covers=["many rows"], bounds="8..1000 rows"),
        H("h_dc_notes", bounds="user data of 0..70000 bytes"),
        H("h_dc_kinds_3", tier="thorough", bounds="3 columns of every type, 1 row"),
        H("h_dc_missing_12", tier="thorough", bounds="12 columns, every set of missing ones"),
    ]),
    "C09": dict(mods=["c08_dc"], bounds="", harnesses=[
        H("h_dc_any", covers=["refused"], bounds="every input of up to 22 bytes"),
        H("h_dc_any_magic", covers=["refused"], bounds="signature and version, then any up to 14 bytes"),
        H("h_dc_any_columns", covers=["refused", "error", "end"], bounds="signature, version, no user data, then any up to 17 bytes"),
        H("h_dc_any_column", covers=["refused", "error", "end"], bounds="signature, version, no user data, one column, then any up to 15 bytes"),
        H("h_dc_any_columns_deep", tier="thorough", time_t=900, bounds="as above, up to 26 bytes"),
        H("h_dc_any_rows", covers=["row", "end", "error"], bounds="header of a string and an int column, then any up to 20 bytes"),
        H("h_dc_any_rows_deep", tier="thorough", time_t=900, bounds="as above, up to 26 bytes"),
        H("h_dc_any_rows_0", covers=["row", "end", "error"], bounds="header without columns, then any up to 20 bytes"),
        H("h_dc_any_rows_9", covers=["row", "end", "error"], bounds="header of 9 columns, unsupported types among them, then any up to 26 bytes"),
        H("h_dc_cut", covers=["end", "error", "refused"], bounds="two rows of any content, cut at every byte"),
        H("h_dc_fail", covers=["error", "refused"], bounds="two rows of any content, reader failing at every byte"),
        H("h_dc_interrupted", bounds="interrupted reads"),
        H("h_dc_cut_long", covers=["end", "error"], bounds="many rows, cut at chosen places"),
        H("h_dc_fail_long", covers=["error"], bounds="many rows, reader failing at chosen places"),
    ]),
    "C23": dict(mods=["c07_values"], bounds="", harnesses=[
        H("h_remove", covers=["several"], bounds="every list of up to 6 elements and every set of positions"),
        H("h_remove_pos", bounds="6 strings, up to 3 symbolic positions"),
        H("h_remove_long", bounds="11 elements, every set of positions"),
        H("h_remove_many", covers=["many"], bounds="12..257 elements, families of positions"),
        H("h_remove_huge", covers=["huge"], steps=4_000_000_000, bounds="1023..66000 elements, evenly spread positions"),
    ]),
}

NOT_APPLICABLE = {
}
PROPS["C10"] = dict(mods=["c10_csv"], bounds="texts up to 8 characters over the special characters; lines of up to 4 fields of any printable character; lines up to 20000 bytes", harnesses=[
    H("h_csv_text", covers=["no data", "refused", "end", "several rows", "error"], bounds="every text of up to 7 of 1 , newline; with and without header"),
    H("h_csv_quotes", covers=["end", "error"], bounds="every text of up to 6 of 1 , quote newline x after a first field"),
    H("h_csv_lines", covers=["end", "several rows", "error"], bounds="every text of up to 5 of 1 , newline CR space after a first line"),
    H("h_csv_any", covers=["no data", "refused", "end"], bounds="every text of up to 5 of 1 x , quote newline CR space"),
    H("h_csv_ragged", covers=["end", "several rows", "error"], bounds="3 lines of 1..4 fields, 3 columns, any printable character, 4 delimiters, LF/CRLF, final newline or not, short reads or not"),
    H("h_csv_wide", covers=["end", "several rows", "error"], bounds="2 lines of 1..5 fields of 2 characters, 4 columns"),
    H("h_csv_long", covers=["end", "several rows"], bounds="first field of 8183..20000 bytes"),
    H("h_csv_many", covers=["end", "error", "many rows"], bounds="3..701 lines of 3 widths across the buffers, one unusual in 7 ways at 4 places"),
    H("h_csv_columns", covers=["end", "error", "several rows"], bounds="2..300 columns, a line of 1..640 fields"),
    H("h_csv_many_deep", tier="thorough", time_t=600, covers=["end", "error", "many rows"], bounds="33..3000 lines"),
    H("h_csv_text_deep", tier="thorough", time_t=600, bounds="as h_csv_text, up to 9 characters"),
    H("h_csv_marks", covers=["end", "error"], bounds="every text of up to 4 of backslash # quote , newline at the start, in a field, in a quoted field and on a second line"),
    H("h_csv_quotes_deep", tier="thorough", time_t=600, bounds="as h_csv_quotes, up to 8 characters"),
    H("h_csv_any_deep", tier="thorough", time_t=600, bounds="as h_csv_any, up to 7 characters"),
])
PROPS["C11"] = dict(mods=["c11_detect"], bounds="texts of up to 4..5 characters; numbers of up to 47 characters with one arbitrary character", harnesses=[
    H("h_delimiter", covers=["non-ASCII"], bounds="every UTF-8 text of up to 4 bytes, 4 candidate lists"),
    H("h_delimiter_given", covers=["tab", "accepted", "refused"], bounds="every UTF-8 text of up to 4 bytes"),
    H("h_kind", covers=["text", "number", "integer"], bounds="every ASCII text of up to 4 characters"),
    H("h_kind_long", bounds="12 long numbers with any sign and any one character changed"),
    H("h_header", covers=["header", "no header"], bounds="every two lines of up to 3 of , 1 x . space"),
    H("h_common", bounds="every sequence of up to 4 kinds"),
    H("h_source", covers=["header", "space", "several rows"], bounds="every two lines of a first field and up to 3 of , space 1 x"),
    H("h_configured", bounds="4 delimiters"),
    H("h_header_wide", covers=["header", "no header"], bounds="2..65 columns, any one of them 1, x or . in either line, one column more in either"),
    H("h_source_wide", covers=["header"], bounds="the same read as a file"),
    H("h_delimiter_long", bounds="0..65536 of each of two candidates and any other character"),
    H("h_common_long", bounds="one kind among up to 40 of another"),
    H("h_delimiter_deep", tier="thorough", time_t=600, bounds="every UTF-8 text of up to 7 bytes"),
    H("h_kind_deep", tier="thorough", time_t=600, bounds="every ASCII text of up to 6 characters"),
    H("h_header_deep", tier="thorough", time_t=600, bounds="lines of up to 4"),
])
PROPS["C12"] = dict(mods=["c12_csvout"], bounds="numbers: 9..11 base values of each kind with any one byte of them arbitrary; layouts of up to 3 columns and 2 rows; ASCII text", harnesses=[
    H("h_int_8", bounds="every byte value"),
    H("h_int_u16", bounds="9 base values, any one byte arbitrary"), H("h_int_16", bounds="as above, signed"),
    H("h_int_32", bounds="as above"), H("h_int_64", bounds="as above"),
    H("h_double", bounds="11 base values, any one byte of the bit pattern arbitrary, NaN and infinities among them"),
    H("h_float", bounds="as above, single precision"),
    H("h_layout", covers=["time and columns"], bounds="0..3 columns, 1 row, 6 delimiters, 4 units, epoch or UTC human time, time column present, absent or named, values missing, empty, text or number"),
    H("h_layout_2", covers=["time and columns"], bounds="0..1 columns, 2 rows, otherwise as above"),
    H("h_epoch", bounds="6 base timestamps with any one byte arbitrary, 4 units"),
    H("h_out_unsupported", bounds="values of unsupported kinds"),
    H("h_out_big", covers=["wide", "many rows"], bounds="1..300 columns, 2..300 rows, one value or name any"),
    H("h_out_long", bounds="fields of 8189..20000 bytes"),
])
PROPS["C13"] = dict(mods=["c13_epoch"], bounds="", harnesses=[
    H("h_unit_first", covers=["converted", "refused"], bounds="14 numbers around the limits of every unit, any one character replaced by any printable one, 4 units"),
    H("h_unit_later", covers=["converted", "refused"], bounds="the same in the second row"),
    H("h_unit_far", covers=["converted", "refused"], bounds="a row anywhere among 3..400, 4 numbers with any one character replaced, unit given or found"),
    H("h_digits_4", covers=["converted"], bounds="every 4 digits, 4 units"),
    H("h_digits_near", covers=["converted", "refused"], bounds="every 3 digits after prefixes at the limits of every unit, 4 units"),
    H("h_digits_7", covers=["converted"], tier="thorough", time_t=300, bounds="every 7 digits, 4 units"),
    H("h_auto", covers=["converted", "refused"], bounds="20 numbers around the ends of every range, any one character replaced by any printable one, a second row or not"),
    H("h_argument", covers=["converted", "refused"], bounds="as h_auto, as begin or end argument"),
])

PROPS["C14"] = dict(mods=["c14_timecol"], bounds="", harnesses=[
    H("h_auto_2", covers=["number", "date and time"], bounds="2 columns of 14 names each, every mix of upper and lower case"),
    H("h_auto_3", covers=["number", "date and time"], bounds="3 columns of 8 names each, every mix of upper and lower case"),
    H("h_auto_4", covers=["number", "date and time"], tier="thorough", time_t=600, bounds="4 columns of 8 names each, every mix of upper and lower case"),
    H("h_auto_wide", covers=["wide"], bounds="two candidates of 8 names at 5 places among 5..300 columns, every mix of upper and lower case of one"),
    H("h_auto_twice", covers=["number"], bounds="2 columns of 10 names each whose words occur twice or hide others, every mix of upper and lower case"),
    H("h_near", covers=["number", "date and time"], bounds="2 columns of 14 names each, any one character any letter"),
    H("h_prefixes", covers=["number", "date and time"], bounds="a date and a time column behind prefixes of 0..2 printable characters, among 3 columns in 3 orders"),
    H("h_index", covers=["there", "missing"], bounds="3 columns, every 64-bit position"),
    H("h_indices", covers=["there", "missing"], bounds="4 columns, every two 64-bit positions"),
    H("h_name", covers=["there", "missing"], bounds="3 columns, all names of one letter"),
    H("h_names", covers=["there", "missing"], bounds="4 columns, all names of one letter"),
])
PROPS["C15"] = dict(mods=["c15_begin"], bounds="texts of up to 35 characters; with and without the UTC zone", harnesses=[
    H("h_dates", covers=["accepted", "refused"], bounds="6 dates, any one character replaced by any printable one"),
    H("h_numbers", covers=["accepted", "refused"], bounds="20 numbers around the limits of every unit, any one character replaced by any printable one"),
    H("h_local", covers=["accepted", "refused"], bounds="18 dates and times in all styles, any one character replaced by any printable one"),
    H("h_offset", covers=["accepted", "refused"], bounds="8 dates and times with offset, any one character replaced by any printable one"),
    H("h_insert", covers=["accepted", "refused"], bounds="9 texts, any printable character put in anywhere"),
    H("h_shorter", covers=["accepted", "refused"], bounds="10 texts, any character removed or the rest cut off, last character any printable one"),
    H("h_any_2", covers=["refused"], bounds="every 2 printable characters"),
    H("h_any_3", covers=["refused"], bounds="every 3 printable characters"),
    H("h_year", covers=["accepted"], bounds="every year 2010..2019 +- the third digit"),
    H("h_century", covers=["accepted", "refused"], bounds="every first two digits of a year"),
    H("h_day", covers=["accepted", "refused"], bounds="every two digits of month and day, month, day"),
    H("h_clock", covers=["accepted", "refused"], bounds="every two digits of hours, minutes, seconds"),
    H("h_fraction", covers=["accepted"], bounds="every three digits of the fraction"),
    H("h_offset_digits", covers=["accepted", "refused"], bounds="every four digits of the offset"),
])

PROPS["C16"] = dict(mods=["c16_zone"], bounds="zones UTC, New York, Berlin, London, Kolkata, Lord Howe; years 2008 to 2036", harnesses=[
    H("h_local_2020", covers=["accepted", "refused"], bounds="6 zones, 8 days of 2020 at and around the clock changes, every second and nanosecond of the day"),
    H("h_local_years", covers=["accepted", "refused"], bounds="the same in 2008, 2013, 2027 and 2036"),
    H("h_shown_2020", bounds="6 zones, 8 days of 2020, 256 instants over the day and 256 seconds around midnight and each clock change"),
    H("h_shown_years", bounds="the same in 2008, 2013, 2027 and 2036"),
    H("h_written", covers=["written"], bounds="3 zones, 8 days, 4 units, 256 instants each in three spacings"),
    H("h_field_auto", covers=["accepted", "refused"], bounds="7 local times in all detected formats, any one character replaced by any printable one, first or second row, 2 zones"),
    H("h_field_given", covers=["accepted", "refused"], bounds="6 local times in configured formats, any one character replaced by any printable one, first or second row, 2 zones"),
    H("h_field_far", covers=["accepted", "refused"], bounds="6 local times after 30 or 250 rows of the same format, any one character replaced, found or given format, 2 zones"),
    H("h_columns", covers=["accepted", "refused"], bounds="6 local times in two columns, any one character replaced by any printable one, 2 zones"),
    H("h_own_offset", covers=["accepted", "refused"], bounds="6 times with offset, any one character replaced by any printable one, first or second row, with a zone or none"),
    H("h_shown_far", covers=["shown"], bounds="2 zones, 5 x 256 seconds between 2038 and 2554, 4 fractions"),
    H("h_no_zone", bounds="every second of 4 days, 7 texts"),
    H("h_outside", covers=["refused"], bounds="8 local times around the first and last timestamp"),
])

PROPS["C17"] = dict(mods=["c17_reader"], bounds="", harnesses=[
    H("h_buffered_3", covers=["read to the end", "error passed on"], bounds="every 3 bytes, buffers of 1, 2, 3 and 5 bytes, every schedule of short reads, any one of the first reads failing, 3 requests of 5 kinds"),
    H("h_buffered_5", covers=["read to the end", "error passed on"], bounds="the same with 5 bytes and 2 requests"),
    H("h_preview_4", covers=["text", "no text", "read to the end", "preview failed"], bounds="every 4 bytes, short reads, one error"),
    H("h_preview_lines", covers=["text", "no text"], bounds="7 bytes with line ends, any two of them any"),
    H("h_preview_boundary", covers=["text", "no text"], bounds="8190..8194 bytes, 4 bytes around the preview's end any"),
    H("h_preview_pieces", covers=["text", "no text", "read to the end"], bounds="1..16384 bytes in lines of 3..20000, any one byte at 8 places any, all reads in pieces of one of 8 sizes, 1 request of 5 kinds"),
    H("h_preview_long", covers=["text", "read to the end", "error passed on"], bounds="8192..16390 bytes, bytes at the preview's and the stream's end any, short reads, one error, 2 requests of 5 kinds"),
])

PROPS["C21"] = dict(mods=["c21_multi"], bounds="up to 3 files, 0..4 columns (5 for two files, thorough), names of 1..2 characters, 1..2 types, 0..2 rows per file, every timestamp", harnesses=[
    H("h_multi_two", covers=["all read", "refused"], bounds="2 files of 0..2 columns, any different names from 4 letters (upper and lower case), 2 types, 0..1 rows"),
    H("h_multi_wide_4", covers=["all read", "refused"], bounds="2 files of 0..4 columns, any different names from 6 letters, 0..1 rows"),
    H("h_multi_names", covers=["all read", "refused"], bounds="2 files of 0..2 columns, names of 1..2 characters"),
    H("h_multi_three_3", covers=["all read", "refused"], bounds="3 files of 0..3 columns, names from 4 letters, 0..1 rows"),
    H("h_multi_three_rows", covers=["all read", "refused"], bounds="3 files of 2 columns, names from 4 letters, 0..2 rows"),
    H("h_multi_repeated", covers=["all read"], bounds="2 files with the same 3 columns, names may repeat, 2 types, 0..2 rows"),
    H("h_multi_given", covers=["all read", "refused at once"], bounds="1 file and a given header or none, 0..2 columns, 2 types"),
    H("h_multi_given_two", covers=["all read", "refused at once", "refused"], bounds="2 files and a given header or none, 0..2 columns"),
    H("h_multi_none", covers=["all read"], bounds="no files, a given header of 0..2 columns or none"),
    H("h_multi_faults", covers=["refused", "refused at once"], bounds="3 files of 0..2 rows, one missing or failing at any row"),
    H("h_multi_big", covers=["all read", "refused"], bounds="2..120 files of 3..257 columns, rotated, reversed, swapped, with more columns, one lacking a column or having another type"),
    H("h_multi_wide_5", tier="thorough", time_t=300, bounds="2 files of 0..5 columns, names from 7 letters"),
    H("h_multi_three_4", tier="thorough", time_t=600, bounds="3 files of 0..4 columns, names from 5 letters"),
    H("h_multi_two_4", tier="thorough", time_t=400, bounds="2 files of 0..4 columns, names from 5 letters, 2 types"),
])

PROPS["C19"] = dict(mods=["c19_zip"], bounds="archives of up to some 200 bytes (any one part of up to 65535), stored and deflated data; bzip2 data is not read (libbz2 is C)", assumptions=["libbz2 is replaced by a stand-in that refuses data without its magic"], harnesses=[
    H("h_zip_layout", covers=["read"], bounds="names of 0..2 ASCII characters, with or without UTF-8 flag, 0 or 5 bytes of local extra, 0..3 extra fields of 0, 2 or 4 bytes, entry comment of 0 or 3, archive comment of 0 or 3 bytes, with or without data descriptor, all of any content; whole or 1-byte reads of the file"),
    H("h_zip_many_fields", covers=["read"], bounds="1 to 400 empty extra fields, with and without zip64"),
    H("h_zip_comments_9", covers=["read"], bounds="archive comments of 0..9 bytes of any content, with and without zip64"),
    H("h_zip_false_end", covers=["read"], bounds="a comment holding an end record with any 18 bytes whose length does not fit, 0..2 bytes before and after"),
    H("h_zip_long_comment", covers=["read"], bounds="comments of 300, 4096, 65534 and 65535 bytes"),
    H("h_zip_64", covers=["read"], bounds="stored or deflated, any of size, packed size and offset moved; zip64 records absent, idle or referred to by any one or all values; extra fields before and after"),
    H("h_zip_lengths", covers=["read"], bounds="name, extra fields, comment of the file, data, or what precedes them of 1..8193 bytes, stored or deflated, with and without zip64"),
    H("h_zip_lengths_long", covers=["read"], bounds="the same of 32767..65535 bytes"),
    H("h_zip_decisive", covers=["read", "refused"], bounds="each of 17 deciding fields with any value of its width, with and without zip64"),
    H("h_zip_idle", covers=["read"], bounds="all fields without influence at once, any values"),
    H("h_zip_names", bounds="names with any one character outside ASCII"),
    H("h_zip_one_byte", covers=["read", "refused", "failed while reading"], bounds="stored archive, any byte replaced by any value, with and without zip64"),
    H("h_zip_one_byte_deflated", covers=["read", "refused", "failed while reading"], bounds="deflated archive, any byte replaced by any value, with and without zip64"),
    H("h_zip_cut", covers=["refused"], bounds="cut anywhere, any name, comment and data"),
    H("h_zip_several", covers=["refused"], bounds="0, 2 or 3 files"),
    H("h_zip_anything", covers=["refused"], bounds="the first signature and any 6 bytes"),
    H("h_zip_anything_26", covers=["refused"], bounds="the first signature and any 26 bytes"),
    H("h_zip_anything_40", covers=["refused"], bounds="the first signature and any 40 bytes"),
    H("h_zip_any_end", covers=["refused"], bounds="a local header and an end record of any contents"),
])

PROPS["C20"] = dict(mods=["c19_zip"], bounds="data of up to 70 bytes, some up to 65535, stored, or deflated as plain blocks or with fixed codes", harnesses=[
    H("h_crc_stored", covers=["read", "mismatch"], bounds="0, 1, 3, 17, 64 and 70 bytes, any stored checksum, reads of 1, 2, 7 and 100 bytes, whole or short reads of the file"),
    H("h_crc_block", covers=["read", "mismatch"], bounds="the same, deflated as plain blocks"),
    H("h_crc_deflated", covers=["read", "mismatch"], bounds="13 bytes deflated with fixed codes, any stored checksum, the same reads"),
    H("h_crc_changed", covers=["read", "mismatch"], bounds="5 bytes, any one replaced by any value, reads of 1, 3 and 100 bytes"),
    H("h_crc_changed_block", covers=["read", "mismatch"], bounds="the same, deflated as plain blocks"),
    H("h_crc_changed_long", covers=["read", "mismatch"], bounds="70 bytes, any one replaced by any value, reads of 1, 3 and 100 bytes"),
    H("h_crc_long", covers=["read", "mismatch"], bounds="4096..65535 bytes, any stored checksum, or one of six bytes changed, reads of 100..70000 bytes through buffers of 8192 and 100000"),
    H("h_crc_long_block", covers=["read", "mismatch"], bounds="the same, deflated as plain blocks"),
    H("h_crc_requests", bounds="6 bytes, any stored checksum, four requests of 0, 1, 4 or 9 bytes and three more, past the end"),
])

PROPS["C22"] = dict(mods=["c22_dir"], bounds="directories of up to 4 entries with names of 1..3 printable characters, up to 301 with one character any; up to 3 files on disk", harnesses=[
    H("h_dir_list_3", covers=["ordered"], bounds="0..3 entries of any names of 1..2 printable characters, files or subdirectories, in any order"),
    H("h_dir_list_names", covers=["ordered"], bounds="0..2 files, names of 1..3 printable characters"),
    H("h_dir_list_4", covers=["ordered"], bounds="0..4 files, names of 1 character"),
    H("h_dir_list_long", covers=["ordered"], steps=200_000_000, bounds="5..301 entries of 4 kinds of names in 4 orders, subdirectories among them, one character of one name any"),
    H("h_dir_not", bounds="not a directory, or one that cannot be listed"),
    H("h_dir_disk_2", covers=["read"], bounds="2 CSV files of 6 names written in any order, any digit as timestamp, with or without a subdirectory"),
    H("h_dir_disk_3", covers=["read"], bounds="the same with 3 files"),
    H("h_dir_kinds", bounds="a directory, a file and nothing"),
])

PROPS["C24"] = dict(mods=["c22_dir"], bounds="files of up to 200000 bytes that differ in up to 4 places", harnesses=[
    H("h_same_small", covers=["same", "different"], bounds="0..3 bytes each, any contents"),
    H("h_same_buffer", covers=["same", "different"], bounds="lengths around 8192, bytes at both ends and around the buffer boundary any"),
    H("h_same_buffers", covers=["same", "different"], bounds="lengths of one to three buffers, bytes around the boundaries and the end any"),
    H("h_same_big", covers=["same", "different"], bounds="4096..200000 bytes, the other file as long or not, any bytes at one of 9 places"),
    H("h_same_reads", covers=["same", "different", "failed"], bounds="files of 0..28000 bytes; one to three reads from the 1st..6th on give 1, 100 or 8000 bytes, or fail"),
    H("h_same_missing", bounds="either or both files missing"),
])

PROPS["C18"] = dict(mods=["c18_pick"], bounds="names of up to two any characters and two known extensions, up to 4 handlers or transports, short contents plain or compressed", harnesses=[
    H("h_pick_handlers", covers=["taken", "refused"], bounds="3 handlers able or not by format and by contents; by contents, by name or by override; any 3 characters of contents"),
    H("h_pick_handlers_4", covers=["taken", "refused"], bounds="the same with 4 handlers"),
    H("h_pick_names", covers=["taken", "refused"], bounds="names of two any characters and two of ten extensions, contents plain or in any of five packings"),
    H("h_pick_override", covers=["taken", "refused"], bounds="overrides of one any character and two of ten extensions, with and without a name that says otherwise"),
    H("h_pick_override_2", covers=["taken", "refused"], bounds="the same with two any characters"),
    H("h_pick_compression", covers=["named", "magic", "none"], bounds="names of 0..6 any characters; 0..9 any leading bytes, of which the ones after the fifth one at a time"),
    H("h_pick_paths", covers=["taken", "refused"], bounds="6 directories, 6 stems of up to 1200 characters, 7 extensions, 7 packings, contents in 6 packings, up to 83 handlers"),
    H("h_pick_built_in", covers=["binary", "text", "refused"], bounds="names and overrides of up to 5 symbolic characters, with .dc or .csv before or behind them or neither; contents binary, text or neither; with and without the CSV handler"),
    H("h_pick_leading", covers=["binary", "text", "refused"], bounds="binary data, text or neither, whole or cut anywhere, any one byte replaced by any value, three names"),
    H("h_pick_leading_2", covers=["binary", "text", "refused"], bounds="the same with any two bytes replaced"),
    H("h_pick_transports", covers=["failed", "unpacked", "none", "taken"], bounds="up to three seekable and streaming transports, able or not, failing or not, plain and zip contents"),
    H("h_pick_users", covers=["refused", "user's", "built-in"], bounds="user-supplied and built-in handlers over binary, text and other contents"),
])

_packed = [H("h_packed_" + k, covers=["read"], bounds="up to %d bytes in blocks of 1..3, one stream or two, optional checksums, sizes and names; short reads; requests of 1, 3 and 8192 bytes" % n) for k, n in (("gz", 4), ("lz4", 4), ("lz4_block", 5), ("lzf", 5), ("zst", 4))]
_packed += [H("h_copied_" + k, covers=["read"], bounds="three literals, a match of 4..274 bytes at distance 1..3 and five literals, any bytes") for k in ("lz4", "lz4_block", "lzf")]
_packed += [H("h_packed_lzf_empty", covers=["read"], bounds="1..4 chunks, each empty or not")]
_packed += [H("h_coded_gz", covers=["read"], bounds="fixed codes"), H("h_coded_zst", covers=["read"], bounds="a run of 1..1000 of any byte")]
_packed += [H("h_big_" + k, covers=["read", "refused"], bounds="255..140000 bytes in blocks of 100..65535, one byte of contents or checksum any, whole or cut at 6 places, requests of 100..100000") for k in ("gz", "lz4", "lz4_block", "lzf", "zst")]
_packed += [H("h_cut_" + k, covers=["refused", "whole"], bounds="cut at any place, any contents") for k in ("gz", "lz4", "lz4_plain", "lz4_block", "lzf", "zst", "zst_plain")]
_packed += [H("h_sum_" + k, covers=["read", "mismatch"], bounds="any stored checksum") for k in ("gz", "lz4", "lz4_block", "zst")]
_packed += [H("h_changed_" + k, covers=["refused"], bounds="any byte of a checked stream replaced by any value") for k in ("gz", "gz_two", "lz4", "lz4_two", "lz4_block", "zst", "zst_two")]
PROPS["C25"] = dict(mods=["c25_packed"], bounds="streams of up to 5 bytes in stored blocks, up to 140000 with one byte any, 277 with copies and 1000 with runs", harnesses=_packed)

_faults = ["source", "header", "row", "flush", "success"]
PROPS["C28"] = dict(mods=["c28_fail"], bounds="seven topologies of up to four stages and three sources with up to 3 rows each and any 64-bit timestamps and range, one failure of any kind at any point; inputs of three rows broken off or cut anywhere; outputs of up to 9000-byte rows", harnesses=[
    H("h_fail_chain", covers=_faults, bounds="2 stages one after the other, 0..3 rows"),
    H("h_fail_pair", covers=_faults, bounds="2 independent chains, 0..2 rows each"),
    H("h_fail_merge", covers=_faults, bounds="2 sources merged into 2 stages, 0..2 rows each"),
    H("h_fail_merge_3", covers=_faults, bounds="3 sources merged, 0..1 rows each"),
    H("h_fail_split", covers=_faults, bounds="a stage, a split to two chains, a stage after it, 0..2 rows"),
    H("h_fail_tee", covers=_faults, bounds="merged with stages before and after, 0..2 rows each"),
    H("h_fail_join", covers=_faults, bounds="a split whose one branch is merged with the other, 0..2 rows each"),
    H("h_fail_exit", covers=["success", "failure"], bounds="success and every kind of error, texts of 0..1 characters, at the end of the process"),
    H("h_fail_far", covers=_faults, bounds="up to 60 rows, 33 sources, 33 stages or 33 branches, one failure early, in the middle or late, one timestamp any"),
    H("h_fail_full", covers=["refused"], bounds="CSV and DC to a device without room, 0..3 rows of 0..9000 bytes, alone or beside a working output"),
    H("h_fail_write", covers=["failed", "written", "interrupted"], bounds="CSV to a file or standard output and DC to a file whose 1st..7th write fails once, twice or for good with any of six errors, and takes at most 5000 bytes at a time; names, time column names and values of 1 or 9000 bytes"),
    H("h_fail_write_rows", covers=["failed", "written", "interrupted"], bounds="as before, three rows of 1, 5000 or 9000 bytes each"),
    H("h_fail_write_each", covers=["failed", "written"], bounds="CSV and DC, every kind of value: each write of the later header and of a row is the one that meets the failing device"),
    H("h_fail_read", covers=["failed", "read"], bounds="CSV and DC input files, plain, compressed in each way, in an archive or in a directory, whose nth read fails once, twice or for good, or which give 700 or 5000 bytes at a time; three rows of 1..9000 bytes"),
    H("h_fail_list", covers=["failed", "read"], bounds="a directory of 0..3 files whose listing fails at any entry with any of four errors"),
    H("h_fail_open", covers=["refused"], bounds="nine paths that are no outputs"),
    H("h_flush_file", covers=["rows", "no rows"], bounds="CSV and DC files, 0..2 rows of 1..9000 bytes, any time range"),
    H("h_flush_merged", covers=["rows", "no rows"], bounds="2 sources of 0..2 rows merged into a file"),
    H("h_fail_read_csv", covers=["failed", "read"], bounds="3 rows, an error at any byte, read in pieces of 1, 5 or any size"),
    H("h_fail_read_dc", covers=["failed", "read"], bounds="3 rows, an error at any byte, read in pieces of 1, 5 or any size"),
    H("h_fail_packed_csv", covers=["failed", "read"], bounds="5 formats, cut at any byte"),
    H("h_fail_packed_dc", covers=["failed", "read"], bounds="5 formats, cut at any byte"),
    H("h_fail_chain_5", tier="thorough", time_t=600, covers=_faults, bounds="0..5 rows"),
    H("h_fail_merge_deep", tier="thorough", time_t=900, covers=_faults, bounds="0..3 rows each"),
    H("h_fail_merge_3_deep", tier="thorough", time_t=900, covers=_faults, bounds="0..2 rows each"),
    H("h_fail_split_4", tier="thorough", time_t=600, covers=_faults, bounds="0..4 rows"),
    H("h_fail_tee_deep", tier="thorough", time_t=900, covers=_faults, bounds="0..3 rows each"),
    H("h_fail_join_deep", tier="thorough", time_t=900, covers=_faults, bounds="0..3 rows each"),
])
PROPS["C26"] = dict(mods=["c26_http"], client=True, bounds="bodies of up to 5 arbitrary bytes and of 255..65537 bytes, sent with a length, in chunks, or up to the end of the connection, whole or cut anywhere; 8 error statuses", harnesses=[
    H("h_http_body", covers=["read", "cut"], bounds="3 good statuses, bodies of up to 5 arbitrary bytes, 6 ways to send them, cut at every byte, received at once or in pieces of 7, read by 1 or 9 bytes"),
    H("h_http_long", covers=["long"], bounds="bodies of 255..65537 bytes at buffer boundaries, one byte arbitrary, chunks of 5000"),
    H("h_http_errors", covers=["error", "error cut"], bounds="8 statuses outside 2xx, bodies of up to 2 arbitrary bytes, whole or cut"),
    H("h_http_taken", covers=["a URL", "no URL"], bounds="15 beginnings of paths followed by up to 2 printable characters"),
    H("h_http_nothing", bounds="refused connection, empty, cut and garbled answers"),
    H("h_http_rows", covers=["rows"], bounds="URL of csv data to rows, 6 ways to send it, cut at every byte, 3 sizes of pieces, 4 names"),
])
PROPS["C27"] = dict(mods=["c27_cli"], bounds="up to 3 inputs and 3 overrides; every option in every spelling with small inputs of symbolic cells; every argument value of 1 byte", harnesses=[
    H("h_cli_pairs_1", bounds="1 input, up to 2 overrides"),
    H("h_cli_pairs_2", bounds="2 inputs, up to 2 overrides"),
    H("h_cli_pairs_3", bounds="3 inputs, up to 3 overrides"),
    H("h_cli_output", covers=["epoch", "human", "failed"], bounds="output options: delimiter, granularity, print-time, time column name, epoch or human, 5 spellings"),
    H("h_cli_styles", covers=["epoch", "human"], bounds="time styles by default and given, zones"),
    H("h_cli_outfile", covers=["binary", "text"], bounds="output names and what is written"),
    H("h_cli_range", covers=["row"], bounds="every pair of begin and end of 5 kinds, 3 rows of times of one arbitrary digit"),
    H("h_cli_input", covers=["read"], bounds="16 sets of CSV input options, from a file or standard input, one arbitrary digit and letter"),
    H("h_cli_conflicts_3", covers=["accepted"], bounds="every ordered choice of up to 3 of 7 timestamp options"),
    H("h_cli_conflicts_4", covers=["accepted"], bounds="every ordered choice of up to 4 of 7 timestamp options"),
    H("h_cli_unknown", bounds="22 sets of meaningless options"),
    H("h_cli_any_1", covers=["done"], bounds="every value of up to 1 byte of 14 options"),
    H("h_cli_any_2", tier="thorough", time_t=900, covers=["done"], bounds="every value of up to 2 bytes of 14 options"),
    H("h_cli_many", covers=["in order"], bounds="4..33 inputs of 3 rows, up to 4 overrides, an input twice, with an end, text or binary output, one letter arbitrary"),
    H("h_cli_columns", covers=["read"], bounds="time column by name or index at 5 places among 2..300 columns"),
    H("h_cli_zones", covers=["zoned", "failed"], bounds="6 zone names, given by argument or environment, with and without a map of names"),
    H("h_cli_odd", bounds="9 odd arguments after each of 11 options or alone"),
])
