AI = "static analysis: abstract interpretation of the clang AST (trace partitioning, loop generalisation), no solver, nothing executed"
NOTE = ("Every member of each listed input family is covered at once (unknown digits/characters/lengths are abstract values); a disagreement is "
        "reported only when the analysis is exact on the path and exhibits a member. Documents outside the families are not covered. Trusts clang's AST, "
        "the models of the C++ library and Boost in lib/models.py, and real arithmetic in place of floating point.")
PROPS = [
 dict(id="C01", title="Cue times are read exactly; malformed SubRip/WebVTT times are rejected",
  statement="Reading SubRip, WebVTT, SSA/ASS or STL text delivers, for every cue and whatever its text, formatting or neighbours, exactly the start and end instants that its time stamps denote, with every digit contributing its place value. "
            "A SubRip or WebVTT time stamp with a missing, extra or non-numeric field is reported with the reader's exception instead of being delivered as some other time.",
  quantifier="every value of every digit of every time stamp; cues with one or more lines and formatting changes; every character in place of a digit",
  why="The tests read a handful of files; a slip in one field, one digit position or one cue position needs other values than theirs.",
  files=["src/subrip_reader.cc", "src/webvtt_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc", "src/sub_time.cc"],
  mechanism=[("time conversion", "src/subrip_reader.cc:convert_time"), ("time conversion", "src/webvtt_reader.cc"), ("time conversion", "src/ssa_reader.cc:parse_time"), ("time conversion", "src/stl_text_reader.cc"), ("Time::from_hms", "src/sub_time.cc")],
  technique=AI, note=NOTE),
 dict(id="C02", title="All of a cue's text is delivered, once and in order",
  statement="Reading SubRip, WebVTT, SSA/ASS or STL text delivers every character of every cue's text exactly once, in document order, within the cue it belongs to; only mark-up that the format defines is removed, and text that merely resembles mark-up is kept.",
  quantifier="texts of any characters, any number of runs, lines and cues in the listed shapes; every character next to a mark-up character",
  why="The tests compare a few fixed texts; loss or duplication depends on what surrounds the text.",
  files=["src/subrip_reader.cc", "src/webvtt_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc"],
  mechanism=[("line parser", "src/subrip_reader.cc:convert_line"), ("line parser", "src/ssa_reader.cc:parse_line"), ("text loop", "src/stl_text_reader.cc")],
  technique=AI, note=NOTE),
 dict(id="C03", title="Every run of text carries the formatting in force where it stands",
  statement="Each run of text delivered by the SubRip, SSA/ASS and STL text readers has bold, italic, underline, colour, font and size exactly as the mark-up before it in its cue (and, for SSA, its style) says: a change applies to all text after it and to no text before it.",
  quantifier="every sequence of mark-up in the listed shapes, every colour value, size and font name",
  why="Tests see a few combinations; a state that is set, reset or flushed at the wrong point shows up only in others.",
  files=["src/subrip_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc", "src/colour.cc"],
  mechanism=[("tag state machine", "src/subrip_reader.cc:convert_line"), ("override parser", "src/ssa_reader.cc:parse_tag"), ("toggles", "src/stl_text_reader.cc")],
  technique=AI, note=NOTE),
 dict(id="C04", title="A cue means the same wherever it stands in its file",
  statement="Everything that a text reader delivers for a cue (times, text, formatting, positions, fades) is the same whether the cue is alone or stands before, after or between other cues, whatever formatting, overrides, styles or margins those cues have; "
            "in STL text, where settings and toggles go on by definition, this holds once the other cues have switched off what they switched on.",
  quantifier="every cue shape among cues of every listed kind, all texts unknown",
  why="A parser whose state is reset in the wrong place gives right results on nearly every file; only some pairs of neighbouring cues show it.",
  files=["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc"],
  mechanism=[("state of the readers", "src/subrip_reader.cc:read"), ("style and context of an event", "src/ssa_reader.cc:read"), ("state of a cue", "src/stl_text_reader.cc")],
  technique=AI, note="Fonts left open in a line colour the following lines of the same cue in whatever way the reader does it; what is decided is that nothing reaches other cues. " + NOTE),
 dict(id="C05", title="Text is delivered on the line on which it stands",
  statement="Each piece of text is delivered with the line of its cue on which it stands, counted from the top of the subtitle, whatever formatting changes stand in or between the lines and whichever of the format's line breaks (newline, U+2028, |, \\N, \\n) separates them; "
            "bytes which only resemble a line break do not break lines.",
  quantifier="up to six lines, every pattern of line breaks and of empty lines, formatting at each place; texts unknown",
  why="Tests see few cues of more than two lines and few with formatting across them.",
  files=["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc"],
  mechanism=[("line numbers", "src/subrip_reader.cc:convert_line"), ("line numbers", "src/web_vtt_reader.cc"), ("line breaks", "src/ssa_reader.cc:parse_line"), ("line breaks", "src/stl_text_reader.cc:read")],
  technique=AI, note=NOTE),
 dict(id="C06", title="SSA/ASS text stands where alignment, margins and resolution put it",
  statement="Each line of an SSA/ASS event has the vertical and horizontal reference of its alignment (from the style, or the last \\an override), at a distance made of the margin (the event's if not zero, otherwise the style's), the number of lines above or below it and the font size, "
            "all as fractions of the script's resolution; \\pos places the text at its coordinates; formatting moves nothing. SubRip's \\an gives the same references.",
  quantifier="every alignment, style and override; every margin of two to four digits, every font size of two digits; three resolutions; one to five lines",
  why="The tests use a few alignments with one set of margins; offsets go wrong only with particular combinations of alignment, margins and line count.",
  files=["src/ssa_reader.cc", "src/subrip_reader.cc"],
  mechanism=[("placing", "src/ssa_reader.cc:parse_line"), ("overrides", "src/ssa_reader.cc:parse_tag"), ("margins", "src/ssa_reader.cc:read"), ("alignment in SubRip", "src/subrip_reader.cc:convert_line")],
  technique=AI, note="The font size in force is that of the style (72 if there is none). \\pos is decided for events without a vertical margin, since a stable test pins that the margin is added to it. " + NOTE),
 dict(id="C07", title="Colours are read component by component from every notation",
  statement="A colour given in SSA/ASS (hexadecimal &HBBGGRR or &HAABBGGRR, with leading zeros left out or not, with or without a closing &, in styles also as a decimal number; PrimaryColour, BackColour as effect colour, \\c overrides, and \\c alone going back to the style's) "
            "or in SubRip (<font color> as #rrggbb, #rrggbbaa or rgba(r,g,b,a), quoted or not; {\\c}) is delivered with each component, divided by 255, in its own place; what is not a colour is reported with the reader's exception.",
  quantifier="every value of every digit of each component, in each notation and letter case",
  why="The tests read a dozen colours, mostly with components of 0 and 255, by which exchanged or truncated components and digits go unnoticed.",
  files=["src/colour.cc", "src/ssa_reader.cc", "src/subrip_reader.cc"],
  mechanism=[("hexadecimal", "src/colour.cc:from_rgb_hex"), ("hexadecimal with alpha", "src/colour.cc:from_rgba_hex"), ("SSA", "src/ssa_reader.cc:parse_tag"), ("SubRip", "src/subrip_reader.cc:convert_line")],
  technique=AI, note=NOTE),
 dict(id="C08", title="The same content gives the same subtitles wherever it comes from",
  statement="A file is read the same from a string, a stream or a FILE, whichever line ends it has, with or without a byte order mark, with or without a newline at its end, and with lines of any length; "
            "reader_factory opens each file with the reader for its extension (in any case) and, for .stl, its content; an incomplete binary STL file is refused.",
  quantifier="all texts and times of the documents; every line end and file end; lines around the size of every buffer; all extensions", over=["inputs"],
  why="The tests read each sample from one kind of source; a line longer than an internal buffer is in none of them.",
  files=["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc", "src/reader_factory.cc", "src/util.cc"],
  mechanism=[("reading lines", "src/util.cc:get_line_file"), ("line ends", "src/util.cc:remove_unicode_bom"), ("choice of reader", "src/reader_factory.cc:reader_factory")],
  technique=AI, note=NOTE),
 dict(id="C09", title="Any file gives subtitles or one of the library's exceptions, safely",
  statement="Reading a file with anything in it (missing, doubled, truncated or meaningless lines, fields, numbers, times, tags and codes) ends with subtitles or with an exception of the library; "
            "no other exception comes out, and on no path is anything used which is not there: an element outside a container, the value of an empty optional, a null pointer, an uninitialised value, an empty container's last element, a division by zero.",
  quantifier="for each place in a file of each format: nothing, a list of awkward words, and every one, two or three bytes",
  why="The tests read hardly any malformed file; what a particular byte at a particular place does is not in them.",
  files=["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc", "src/stl_binary_tables.cc", "src/iso6937.cc", "src/colour.cc", "src/sub_time.cc"],
  mechanism=[("SubRip", "src/subrip_reader.cc:read"), ("tags", "src/subrip_reader.cc:convert_line"), ("WebVTT", "src/web_vtt_reader.cc:read"), ("SSA", "src/ssa_reader.cc:read"), ("overrides", "src/ssa_reader.cc:parse_tag"),
             ("STL text", "src/stl_text_reader.cc:time"), ("binary STL", "src/stl_binary_reader.cc:read")],
  technique=AI, note="ProgrammingError (from SUB_ASSERT) counts as one of the library's exceptions. sscanf's numbers out of range are taken as any number. " + NOTE),
 dict(id="C10", title="The GSI block of a written STL file follows EBU Tech 3264",
  statement="Every binary STL file written starts with 1024 bytes in which each title, name, date, country, language, frame rate and revision given stands complete and padded in its own field, "
            "and in which the numbers of blocks and of subtitles and the length of the longest row (in characters, at most 99) are those of the file that follows.",
  quantifier="every text that fits each field, every language, the supported frame rates, lists of subtitles of various numbers and lengths",
  why="The tests write one file with one set of short titles.",
  files=["src/stl_binary_writer.cc", "src/stl_util.cc", "src/stl_binary_tables.cc"],
  mechanism=[("header", "src/stl_binary_writer.cc:write_stl_binary"), ("fields", "src/stl_binary_writer.cc:put_string"), ("frame rate", "src/stl_util.cc:stl_frame_rate_to_dfc")],
  technique=AI, note=NOTE),
 dict(id="C11", title="Each written TTI block carries its subtitle's times, text and justification",
  statement="For each subtitle a binary STL file has the blocks that its text needs, numbered 0, 1, 2… with FFh for the last, the text going on from one to the next without loss and the rest filled with 8Fh; "
            "each carries the start and end of its own subtitle to the nearest frame of the file's frame rate as a valid time code, and its justification.",
  quantifier="all start and end times, at four frame rates of the file and five of the times; texts around multiples of the block size; lists of subtitles",
  why="The tests write a few subtitles with short text, whose times are whole frames.",
  files=["src/stl_binary_writer.cc", "src/sub_time.cc"],
  mechanism=[("blocks", "src/stl_binary_writer.cc:make_tti_blocks"), ("time codes", "src/stl_binary_writer.cc:put_time")],
  technique=AI, note=NOTE),
 dict(id="C12", title="Text, line breaks, italics and underlining are written to binary STL as they are",
  statement="The text field of a written binary STL subtitle, read by the rules of EBU Tech 3264 (80h–83h italic and underline on and off, 8Ah new line, 8Fh end), holds exactly the characters of the subtitle's lines, "
            "each with the italics and underlining that its block has, in order, with a line break exactly between lines; nothing stays switched on at the end or leaks to the next subtitle.",
  quantifier="all sequences of up to four formats of neighbouring blocks, over lines and subtitles",
  why="The tests write little formatting; a switch that is forgotten needs a particular sequence.",
  files=["src/stl_binary_writer.cc", "src/iso6937.cc"],
  mechanism=[("text", "src/stl_binary_writer.cc:make_tti_blocks"), ("characters", "src/iso6937.cc:utf16_to_iso6937")],
  technique=AI, note=NOTE),
 dict(id="C13", title="Lines are written to binary STL on the row where they belong",
  statement="Each line of a written binary STL subtitle is on the row nearest to (for proportional positions) or just above (for line numbers) its vertical position, whatever edge that is measured from; the block's vertical position is the top row of the subtitle, "
            "and the number of new-line codes between two lines is the number of rows between them, but at least one.",
  quantifier="every fraction of the screen and every line number, from each reference; pairs of lines at any distance",
  why="The tests use a handful of positions.",
  files=["src/stl_binary_writer.cc", "src/vertical_position.cc"],
  mechanism=[("rows", "src/stl_binary_writer.cc:vertical_position")],
  technique=AI, note=NOTE),
 dict(id="C14", title="A binary STL file that cannot be written in full is reported",
  statement="Writing a binary STL file returns normally only if the file was opened and everything was written to it; otherwise it throws the library's STL exception. "
            "Values that the format cannot hold (over-long texts, dates or country of the wrong length, a revision over 99, a subtitle without lines) are refused with an exception before the file is touched.",
  quantifier="failure of the opening and of any flush; every over-long text and number", over=["inputs", "crash_points"],
  why="The tests never run out of disk or write to a bad path.",
  files=["src/stl_binary_writer.cc"],
  mechanism=[("output", "src/stl_binary_writer.cc:write_stl_binary"), ("refusals", "src/stl_binary_writer.cc:SUB_ASSERT")],
  technique=AI, note="The file stream is modelled: opening and each flush or close may fail independently, writes are buffered. " + NOTE),
 dict(id="C15", title="Memory and files are released exactly once on every path",
  statement="Whatever the file contains, and whether reading or writing succeeds or ends in an exception, everything that the readers, the reader factory and the writer allocate or open is released exactly once, "
            "in the way that fits how it was acquired (delete, delete[], fclose), is not used after that, and a FILE that the caller passed in is left open.",
  quantifier="every path, including each exception, through each reader on good and malformed files, the factory on each kind of file, the writer with and without its file",
  why="A leak or a double release on an error path changes no result that a test compares.",
  files=["src/reader_factory.cc", "src/stl_binary_reader.cc", "src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_writer.cc"],
  mechanism=[("choice of reader", "src/reader_factory.cc:reader_factory"), ("input of blocks", "src/stl_binary_reader.cc:InputReader"), ("writer", "src/stl_binary_writer.cc:write_stl_binary")],
  technique=AI, note="Exceptions for lack of memory are not considered. " + NOTE),
 dict(id="C16", title="The header of a binary STL file is read as EBU Tech 3264 lays it out",
  statement="Reading a binary STL file delivers every text, number, code and the frame rate of its GSI block from its own field, both as members and under its own name in metadata(), "
            "and reads as many TTI blocks as the header says.",
  quantifier="every content of every text field, every digit of every number, every code; one field at a time and all at once",
  why="The tests compare the fields of one or two files, in which many fields are empty or alike.",
  files=["src/stl_binary_reader.cc", "src/stl_binary_tables.cc", "src/stl_util.cc"],
  mechanism=[("header", "src/stl_binary_reader.cc:read"), ("metadata", "src/stl_binary_reader.cc:metadata")],
  technique=AI, note="A maximum of 99 rows is taken as 12, which EBU Tech 3360 recommends. " + NOTE),
 dict(id="C17", title="The TTI blocks of a binary STL file are read as EBU Tech 3264 defines them",
  statement="Every subtitle of a binary STL file is delivered with the start and end of its time codes, its rows, its justification and its text, split into lines at 8Ah and ending at 8Fh; italics and underlining go on from line to line "
            "but not to the next subtitle, a colour lasts to the end of its line; text in extension blocks continues that of the block before; comments are left out.",
  quantifier="every time code and row; all sequences of two (thorough: three) control codes; texts split between blocks at every point",
  why="The tests read files with few control codes and short texts.",
  files=["src/stl_binary_reader.cc", "src/iso6937.cc"],
  mechanism=[("blocks", "src/stl_binary_reader.cc:read"), ("time codes", "src/stl_binary_reader.cc:get_timecode")],
  technique=AI, note=NOTE),
 dict(id="C18", title="Binary STL codes have the meanings that EBU Tech 3264 gives them",
  statement="Every code of EBU Tech 3264 (display standard, character code table, language, time code status, cumulative status, justification, comment, disk format) is converted to its meaning, every meaning to its code, "
            "no two meanings share a code or a description, and any other code is refused with the library's STL exception.",
  quantifier="every enumerator; every byte, every pair of hexadecimal digits",
  why="The tests meet a few languages and codes.",
  files=["src/stl_binary_tables.cc", "src/stl_binary_tables.h", "src/stl_util.cc"],
  mechanism=[("tables", "src/stl_binary_tables.cc:STLBinaryTables"), ("frame rates", "src/stl_util.cc")],
  technique=AI, note=NOTE),
 dict(id="C19", title="Text survives coding in ISO 6937, in both directions",
  statement="Every code of ISO 6937, and every diacritical mark with its letter, is decoded as the Unicode character it stands for; every such character is encoded to a code that decodes to it again, whatever stands next to it; "
            "a letter with a combining mark is encoded like the composed letter; characters and codes without a counterpart do not disturb their neighbours.",
  quantifier="every byte, every letter with every mark, every character of the repertoire",
  why="The tests code five short texts.",
  files=["src/iso6937.cc", "src/iso6937_tables.cc"],
  mechanism=[("decoding", "src/iso6937.cc:iso6937_to_utf16"), ("encoding", "src/iso6937.cc:utf16_to_iso6937"), ("tables", "src/iso6937_tables.cc:make_iso6937_tables")],
  technique=AI, note=NOTE),
 dict(id="C20", title="Reading or writing one document never affects another",
  statement="A document gives the same subtitles, or the same file, whatever was read or written before it in the process, well-formed or not; and nothing of static storage is written other than "
            "while a static local is initialised, so that threads with their own readers do not race.",
  over=["inputs", "schedules", "histories"],
  quantifier="every pair of nineteen documents of all formats (styled, plain, malformed, cut short, written), one after the other; every write to static storage which they reach",
  why="A race in filling a table, or a setting left over from the last document, shows only in long-running or threaded programs.",
  files=["src/iso6937.cc", "src/iso6937_tables.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/web_vtt_reader.cc"],
  mechanism=[("tables", "src/iso6937.cc:make_tables_once")],
  technique="effect analysis of writes to static storage, in an " + AI[0].lower() + AI[1:], note="Static storage within libraries (e.g. the C library's locale) is not covered. " + NOTE),
 dict(id="C21", title="Times are ordered and equal as the instants they denote",
  statement="For any two times with known frame rates, equal or different, exactly one of less than, equal and greater than holds, and it is the order of the instants that they denote; "
            "the other comparisons agree with these.",
  quantifier="all seconds and frames, many pairs of frame rates (and unknown ones)",
  why="Tests compare a few pairs, mostly of one rate.",
  files=["src/sub_time.cc", "src/rational.cc"],
  mechanism=[("comparisons", "src/sub_time.cc:operator<"), ("comparisons", "src/sub_time.cc:operator==")],
  technique=AI, note=NOTE),
 dict(id="C22", title="Arithmetic on times keeps the instant to within a frame",
  statement="Adding, scaling and converting times gives the exact instant, rounded to at most a frame of the resulting rate; hours, minutes, seconds, milliseconds and frames of a time always recombine to it, "
            "frames staying below the frame rate.",
  quantifier="all seconds and frames, many frame rates and scale factors",
  why="Tests try a few values; rounding and carries go wrong only at some.",
  files=["src/sub_time.cc", "src/rational.cc"],
  mechanism=[("arithmetic", "src/sub_time.cc:add"), ("arithmetic", "src/sub_time.cc:scale"), ("conversion", "src/sub_time.cc:frames_at"), ("conversion", "src/sub_time.cc:from_frames")],
  technique=AI, note=NOTE),
 dict(id="C23", title="Collecting raw subtitles groups them by time and place, losing nothing",
  statement="Collecting turns raw subtitles, in whatever order they come, into subtitles ordered by start time, one for each start, end and fade; each raw subtitle becomes exactly one block, "
            "with all its formatting, on the line with its position, and those of equal start keep their order.",
  quantifier="lists of up to four raw subtitles with unknown times, every pattern of equal and different times, fades and positions",
  why="Tests collect the files at hand, which are in order.",
  files=["src/collect.h", "src/raw_subtitle.h", "src/subtitle.cc"],
  mechanism=[("collection", "src/collect.h:collect")],
  technique=AI, note=NOTE),
 dict(id="C24", title="Values are equal exactly when all that they hold is",
  statement="Two subtitles, lines, blocks, colours, font sizes, ratios, or vertical positions with a reference, compare equal exactly if every field of one equals that of the other (horizontal positions: within 1/1998 of the screen); "
            "a block, line or subtitle made of a raw subtitle has every field of it, and belongs together with another one exactly if times and fades (line: positions) are equal.",
  quantifier="every field in turn, with unknown values, on its own and beside others; lists of any order and differing lengths",
  why="Tests compare few values, nearly always equal ones; a field left out of a comparison or a copy shows only in values which differ in it alone.",
  files=["src/subtitle.cc", "src/colour.cc", "src/font_size.cc", "src/vertical_position.cc", "src/horizontal_position.cc", "src/rational.cc", "src/raw_subtitle.cc"],
  mechanism=[("comparison", "src/subtitle.cc:operator=="), ("conversion", "src/subtitle.cc:Block"), ("grouping", "src/subtitle.cc:same_metadata"), ("positions", "src/vertical_position.cc:operator==")],
  technique=AI, note=NOTE),
 dict(id="C25", title="Vertical positions, font sizes and ratios convert to what they denote",
  statement="A vertical position, as a proportion or as a line of a number of lines, from the top, centre or bottom of the screen, converts to its distance from the top (0 if it is not known), and positions are ordered by it; "
            "a font size in points or as a proportion of the screen converts to the other (to within a point); a ratio is its numerator over its denominator.",
  quantifier="all proportions, lines, numbers of lines, sizes and screen heights",
  why="Tests order a few positions.",
  files=["src/vertical_position.cc", "src/font_size.cc", "src/rational.cc", "src/rational.h"],
  mechanism=[("places", "src/vertical_position.cc:fraction_from_screen_top"), ("sizes", "src/font_size.cc:proportional"), ("ratios", "src/rational.cc:integer")],
  technique=AI, note=NOTE),
 dict(id="C26", title="A subtitle survives writing to and re-reading from binary STL",
  statement="Subtitles which are written to binary STL and read back have the same text, lines, italics, underlining, times (to the nearest frame) and screen rows, one for each, and the header's texts, counts, frame rate and language come back.",
  quantifier="all pairs and triples of italic and underlined pieces, on one and two lines; each character that both codes have; texts around the size of one, two and three blocks with an accent, a code or a line break at the border; "
             "unknown times at 24, 25 and 30 frames per second; all rows; up to three subtitles; unknown header texts",
  why="The tests round-trip a few files; what one side splits over blocks, rounds or toggles the other must put together for every text and time.",
  files=["src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/stl_binary_tables.cc", "src/iso6937.cc"],
  mechanism=[("writer", "src/stl_binary_writer.cc:make_tti_blocks"), ("reader", "src/stl_binary_reader.cc:STLBinaryReader")],
  technique=AI, note=NOTE),
 dict(id="C27", title="The library has no effect on the process beyond what it is asked for",
  statement="No public function of the library ends the process, changes its locale, directory, environment or signals, uses C functions with hidden state, runs programs, or removes or makes files; it prints only warnings, by "
            "Reader::warn; only reader_factory opens files to read and only write_stl_binary to write; and everything thrown is a std::exception.",
  over=["inputs", "histories"],
  quantifier="every call, construction, reference to a stream and throw expression in every function of src/, whatever the input",
  why="Such an effect shows only on the path which has it, and not in the result which a test compares.",
  files=["src/*.cc", "src/*.h"],
  mechanism=[("warnings", "src/reader.cc:warn"), ("opening files", "src/reader_factory.cc:reader_factory"), ("writing", "src/stl_binary_writer.cc:write_stl_binary")],
  technique="effect analysis on the call graph of the type-checked program (clang AST)", note="Covers all functions defined in src/; of libraries, the listed functions of the C and C++ libraries and Boost."),
 dict(id="C28", title="The locale of the process does not change what is read or written",
  statement="Reading SubRip, WebVTT, SSA/ASS, STL text and binary STL, with its metadata, and writing binary STL give the same results whatever decimal point and digit grouping the C library's locale and C++'s global locale have.",
  quantifier="the listed documents, with fractional numbers and numbers over a thousand, and unknown texts, in every combination of C and C++ locales with a comma or a point, grouped or not",
  why="The tests run in the C locale only.",
  files=["src/raw_convert.cc", "src/locale_convert.cc", "src/ssa_reader.cc", "src/subrip_reader.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/stl_text_reader.cc"],
  mechanism=[("numbers", "src/raw_convert.cc:make_local"), ("metadata", "src/stl_binary_reader.cc:metadata"), ("counts", "src/stl_binary_writer.cc:put_int_as_string")],
  technique=AI, note="Classification of letters by the locale is not covered. " + NOTE),
 dict(id="C29", title="Dumping prints every subtitle with its times, places and text",
  statement="dump prints the reader's metadata where it has any, and for each subtitle, in order of start time, its start, its end (if known), each line with its vertical position, and each block's whole text, opening and closing marks "
            "of italics and underline exactly where they change and at the line's end; it changes nothing of the reader.",
  quantifier="lists of up to three raw subtitles, unknown texts, every pattern of italics and underline in up to three pieces, every kind of position and time",
  why="The tests never call dump; a mark left open or an end missing shows only in particular patterns of formatting.",
  files=["src/util.cc", "src/sub_time.cc", "src/reader.cc", "src/collect.h"],
  mechanism=[("dump", "src/util.cc:dump"), ("times", "src/sub_time.cc:operator<<")],
  technique=AI, note=NOTE),
 dict(id="C30", title="A refused SubRip or WebVTT file is reported with the place and the reason",
  statement="When a SubRip or WebVTT file is refused because of a time line, a time or a colour, the exception says where and why: line_number() (SubRip) is the number, from 1, of the line at fault; "
            "context() has up to four lines before it, the line itself and, where a whole time line was expected, up to two lines after it, in order and without their line ends, the same from a string and from a FILE; "
            "the message names the line, what was seen and what was expected there. A WebVTT file without its header is refused as such.",
  quantifier="faults of every kind on lines up to the fifteenth, files of unknown texts, with LF and CR LF, from a string and from a FILE",
  why="The tests only see that an exception is thrown; the numbers, lines and words which a user is shown depend on the kind of fault and on what is before and after it.",
  files=["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/exceptions.cc", "src/exceptions.h", "src/util.cc"],
  mechanism=[("lines and their history", "src/subrip_reader.cc:SubripReader::read"), ("lines and their history", "src/web_vtt_reader.cc:WebVTTReader::read"), ("what is expected in a time", "src/subrip_reader.cc:SubripReader::convert_time"),
             ("message", "src/exceptions.cc:SubripError::SubripError")],
  technique=AI, note=NOTE),
 dict(id="N01", title="Reading a file takes time and memory in proportion to its size",
  statement="Reading a file of any format takes time and memory at most proportional to its size.",
  quantifier="files of every size",
  why="The tests read small files.",
  files=["src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc"], mechanism=[("readers", "src/*_reader.cc")],
  na="It quantifies over running time and allocation: backtracking within boost::regex, the growth of containers and repeated searches of texts depend on runtime quantities which no sound static argument in reach bounds."),
]
