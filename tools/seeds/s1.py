H = r'''
static long live = 0;
void* operator new(size_t n) { ++live; void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { ++live; void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete[](void* p) noexcept { if (p) --live; free(p); }
static string rd(string const& f) { ifstream i(f.c_str(), ios::binary); stringstream s; s << i.rdbuf(); return s.str(); }
static Subtitle cue(int from, string text) { RawSubtitle r; r.text = text; r.from = Time::from_hmsf(0, 0, from, 0, Rational(25, 1)); r.to = Time::from_hmsf(0, 0, from + 1, 0, Rational(25, 1)); r.vertical_position.line = 10; r.vertical_position.lines = 23; r.vertical_position.reference = TOP_OF_SCREEN; return Subtitle(r); }
static void wr(vector<Subtitle> s, string f, float fps = 25, string rdate = "201231", string co = "GBR") { write_stl_binary(s, fps, LANGUAGE_ENGLISH, "a", "b", "c", "d", "e", "f", "201230", rdate, 1, co, "pub", "ed", "edc", f); }
static string pad(string s, size_t n) { s.resize(n, ' '); return s; }
static string gsi(int n, string sop = "00000000", string fic = "00000000") { char t[8]; snprintf(t, 8, "%05d", n); return pad(string("850STL25.01000") + "09" + string(32 * 6, ' ') + pad("", 16) + "201231" + "201231" + "01" + t + t + "001" + "38" + "23" + "1" + sop + fic + "11" + "GBR", 1024); }
static string tti(string text, char ebn = '\xff', char vp = 10) { string s; s += '\1'; s += string(2, '\0'); s += ebn; s += '\0'; s += string("\0\0\1\0", 4); s += string("\0\0\2\0", 4); s += vp; s += '\2'; s += '\0'; text.resize(112, '\x8f'); return s + text; }
'''


def b(id, prop, f, old, new, needs, breaks, demo):
    bug(id, prop, [("src/" + f, old, new)], needs, breaks, H + "\nint main (int argc, char** argv)\n{\n\tstring const tmp = argc > 1 ? argv[1] : \".\";\n\ttry {\n" + demo.strip("\n") + "\n\t} catch (std::exception& e) {\n\t\tstd::cerr << \"unexpected exception: \" << e.what() << \"\\n\";\n\t\treturn 1;\n\t}\n\treturn failures ? 1 : 0;\n}")


b("C02-webvtt-blank-line", "C02", "web_vtt_reader.cc", "\t\tcase State::SUBTITLE:\n\t\t\tif (line->empty()) {", "\t\tcase State::SUBTITLE:\n\t\t\tif (empty_or_white_space(*line)) {",
  "a WebVTT cue with a line which consists only of spaces", "the lines of the cue after that line are lost",
  r'''
	WebVTTReader r(string("WEBVTT\n\n00:00:01.000 --> 00:00:02.000\none\n \nthree\n\n"));
	CHECK(r.subtitles().size() == 3);
	CHECK(r.subtitles().back().text == "three");''')

b("C03-font-after-rgba", "C03", "subrip_reader.cc", "Colour::from_rgba_hex(match[1]);\n\t\t\t\t\tcolours.push_back(p.colour);", "Colour::from_rgba_hex(match[1]);",
  "a SubRip line in which a font tag with another colour stands inside one with an 8-digit colour", "the text after the inner </font> loses the outer colour",
  r'''
	SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\n<font color=\"#ff000080\">a<font color=\"#00ff00\">b</font>c</font>d\n\n"));
	CHECK(r.subtitles().size() == 4);
	CHECK(r.subtitles()[2].text == "c");
	CHECK(r.subtitles()[2].colour == Colour(1, 0, 0));
	CHECK(r.subtitles()[3].colour == Colour(1, 1, 1));''')

b("C04-override-leak", "C04", "subrip_reader.cc", "\t\t\trs = RawSubtitle{};\n\t\t\tprepare(rs);", "\t\t\tprepare(rs);\n\t\t\trs.bold = rs.italic = rs.underline = false;\n\t\t\trs.colour = Colour (1, 1, 1);",
  "a SubRip cue with an {\\an} override which is followed by one without", "the second cue keeps the horizontal position of the first",
  r'''
	SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\n{\\an7}a\n\n2\n00:00:03,000 --> 00:00:04,000\nb\n\n"));
	CHECK(r.subtitles().size() == 2);
	CHECK(r.subtitles()[1].horizontal_position.reference == HORIZONTAL_CENTRE_OF_SCREEN);
	CHECK(r.subtitles()[1].vertical_position.reference.get() == TOP_OF_SUBTITLE);''')

b("C05-empty-piece", "C05", "subrip_reader.cc", "\t\t\t\t\trs.vertical_position.line = rs.vertical_position.line.get() + 1;", "\t\t\t\t\tif (!sub_line.empty()) {\n\t\t\t\t\t\trs.vertical_position.line = rs.vertical_position.line.get() + 1;\n\t\t\t\t\t}",
  "a SubRip line with two U+2028 line separators next to each other", "the text after the empty line is one line too high",
  r'''
	SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\na\xe2\x80\xa8\xe2\x80\xa8" "b\n\n"));
	CHECK(r.subtitles().size() == 2);
	CHECK(r.subtitles()[0].vertical_position.line.get() == 0);
	CHECK(r.subtitles()[1].vertical_position.line.get() == 2);''')

b("C06-centred-lines", "C06", "ssa_reader.cc", "((line_breaks + 1) * line_size) / 2;", "((line_breaks + 1) / 2) * line_size;",
  "a vertically centred SSA event with an odd number of lines", "its lines stand half a line too low",
  r'''
	SSAReader r(string("[Script Info]\nPlayResX: 100\nPlayResY: 100\n[Events]\nFormat: Start, End, Text\nDialogue: 0:00:01.00,0:00:02.00,{\\an5}a\\Nb\\Nc\n"));
	CHECK(r.subtitles().size() == 3);
	double const line = 0.72 * 1.2;
	CHECK(NEAR(r.subtitles()[0].vertical_position.proportional.get(), -1.5 * line));
	CHECK(NEAR(r.subtitles()[2].vertical_position.proportional.get(), 0.5 * line));''')

b("C07-alpha", "C07", "ssa_reader.cc", "strtoll(start, nullptr, 16);", "std::stoi(start, nullptr, 16);",
  "an SSA colour whose alpha is 80h or more", "the colour is refused with an exception which is not the library's, and so is the file",
  r'''
	SSAReader r(string("[Script Info]\nPlayResX: 100\nPlayResY: 100\n[V4+ Styles]\nFormat: Name, BackColour\nStyle: Default,&H80203040\n[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Default,a\n"));
	CHECK(r.subtitles().size() == 1);
	CHECK(NEAR(r.subtitles()[0].effect_colour->r, 0x40 / 255.0));
	CHECK(NEAR(r.subtitles()[0].effect_colour->b, 0x20 / 255.0));''')

b("C08-bom-alone", "C08", "util.cc", "line->length() >= 3 &&", "line->length() > 3 &&",
  "a SubRip file in which the byte order mark stands alone on the first line", "the mark is taken for the counter of a cue, and the file is refused or read wrongly",
  r'''
	SubripReader r(string("\xef\xbb\xbf\n1\n00:00:01,000 --> 00:00:02,000\na\n\n"));
	CHECK(r.subtitles().size() == 1);
	CHECK(r.subtitles()[0].text == "a");''')

b("C08-webvtt-crlf", "C08", "web_vtt_reader.cc", "trim_right_if(*line, boost::is_any_of(\"\\n\\r\"));", "trim_right_if(*line, boost::is_any_of(\"\\n\"));",
  "a WebVTT file with CR LF line ends", "the carriage returns become part of the text, and cues run into each other",
  r'''
	WebVTTReader r(string("WEBVTT\r\n\r\n00:00:01.000 --> 00:00:02.000\r\none\r\n\r\n00:00:03.000 --> 00:00:04.000\r\ntwo\r\n"));
	CHECK(r.subtitles().size() == 2);
	CHECK(r.subtitles()[0].text == "one");''')

b("C09-empty-text", "C09", "ssa_reader.cc", "\tif (line.length() > 0) {\n\t\tfor (size_t i = 0; i < line.length() - 1; ++i) {", "\t{\n\t\tfor (size_t i = 0; i < line.length() - 1; ++i) {",
  "an SSA event with an empty text", "the loop counts up from 0 to the largest size and reads outside the string",
  r'''
	SSAReader r(string("[Script Info]\nPlayResX: 100\nPlayResY: 100\n[Events]\nFormat: Start, End, Text\nDialogue: 0:00:01.00,0:00:02.00,\nDialogue: 0:00:01.00,0:00:02.00,b\n"));
	CHECK(r.subtitles().size() == 1);''')

b("C09-minutes", "C09", "subrip_reader.cc", "\t\tm = lexical_cast<int>(a[1]);\n\t} catch (boost::bad_lexical_cast &) {\n", "\t\tm = std::stoi(a[1]);\n\t} catch (std::invalid_argument &) {\n",
  "a SubRip file with a time whose minutes have a number which does not fit into an int", "std::out_of_range comes out of the reader",
  r'''
	bool ok = false;
	try {
		SubripReader r(string("1\n00:99999999999:01,000 --> 00:00:02,000\na\n\n"));
	} catch (SubripError &) {
		ok = true;
	}
	CHECK(ok);''')

b("C10-number-of-subtitles", "C10", "stl_binary_writer.cc", "put_int_as_string (buffer + 243, subtitles.size(), 5);", "put_int_as_string (buffer + 243, tti_blocks.size(), 5);",
  "a subtitle whose text needs more than one block", "the header counts its blocks as subtitles",
  r'''
	vector<Subtitle> s;
	s.push_back(cue(1, string(150, 'x')));
	wr(s, tmp + "/a.stl");
	string const o = rd(tmp + "/a.stl");
	CHECK(o.size() == 1024 + 256);
	CHECK(o.substr(238, 5) == "00002");
	CHECK(o.substr(243, 5) == "00001");''')

b("C11-full-block", "C11", "stl_binary_writer.cc", "offset == text.length() ? 0xff : block_number", "this_time < block_size ? 0xff : block_number",
  "a text which fills its last block exactly (111 characters and the end code)", "the last block of the subtitle is not marked as the last",
  r'''
	vector<Subtitle> s;
	s.push_back(cue(1, string(111, 'x')));
	wr(s, tmp + "/a.stl");
	string const o = rd(tmp + "/a.stl");
	CHECK(o.size() == 1024 + 128);
	CHECK(static_cast<unsigned char>(o[1024 + 3]) == 0xff);''')

b("C12-both-change", "C12", "stl_binary_writer.cc", "\t\t\t\t}\n\t\t\t\tif (k.italic && !italic) {\n\t\t\t\t\ttext += \"\\x80\";", "\t\t\t\t} else if (k.italic && !italic) {\n\t\t\t\t\ttext += \"\\x80\";",
  "a line with a block at which both underline and italics change", "italics are switched only at the next block",
  r'''
	RawSubtitle r;
	Subtitle c = cue(1, "a");
	Block k;
	k.text = "b";
	k.italic = k.underline = true;
	c.lines[0].blocks.push_back(k);
	vector<Subtitle> s(1, c);
	wr(s, tmp + "/a.stl");
	string const o = rd(tmp + "/a.stl");
	CHECK(o.substr(1024 + 16, 7) == "a\x82\x80" "b\x83\x81\x8f");''')

b("C13-top-row", "C13", "stl_binary_writer.cc", "if (!top || vp < top.get ()) {", "if (!top) {",
  "a subtitle whose lines are not in order from top to bottom", "the block has the row of its first line, not of its highest",
  r'''
	Subtitle c = cue(1, "a");
	Line l = c.lines[0];
	l.vertical_position.line = 5;
	c.lines.push_back(l);
	wr(vector<Subtitle>(1, c), tmp + "/a.stl");
	CHECK(rd(tmp + "/a.stl")[1024 + 13] == 5);''')

b("C14-country", "C14", "stl_binary_writer.cc", "SUB_ASSERT (country_of_origin.size() == 3);", "SUB_ASSERT (country_of_origin.size() <= 3);",
  "a country code of two letters", "the file is written with a code which is not one instead of being refused",
  r'''
	bool thrown = false;
	try {
		wr(vector<Subtitle>(1, cue(1, "a")), tmp + "/a.stl", 25, "201231", "GB");
	} catch (std::exception &) {
		thrown = true;
	}
	CHECK(thrown);''')

b("C15-truncated", "C15", "stl_binary_reader.cc", "\tread (shared_ptr<InputReader>(new StreamInputReader(in)));", "\tauto reader = new StreamInputReader(in);\n\tread (shared_ptr<InputReader>(reader, [](InputReader *) {}));\n\tdelete reader;",
  "a binary STL file which is incomplete", "the reader's buffer is not freed when the exception is thrown",
  r'''
	for (int i = 0; i < 2; ++i) {
		long const before = live;
		{
			istringstream in(gsi(i));
			try {
				STLBinaryReader r(in);
				CHECK(i == 0);
			} catch (STLError &) {
				CHECK(i == 1);
			}
		}
		CHECK(live == before || i == 0);
	}''')

b("C16-first-in-cue", "C16", "stl_binary_reader.cc", "m[\"First in cue\"] = first_in_cue;", "m[\"First in cue\"] = start_of_programme;",
  "a file whose first-in-cue time code is not its start of programme", "the metadata have the wrong time code",
  r'''
	istringstream in(gsi(0, "10000000", "10000500"));
	STLBinaryReader r(in);
	CHECK(r.metadata()["First in cue"] == "10000500");''')

b("C17-underline-off", "C17", "stl_binary_reader.cc", "if (c <= 0x07 || (c >= 0x80 && c <= 0x83)) {", "if (c <= 0x07 || (c >= 0x80 && c <= 0x82)) {",
  "an underlined text which is followed by one which is not on the same line", "the underlined text loses its underlining",
  r'''
	istringstream in(gsi(1) + tti("\x82" "ab\x83" "cd"));
	STLBinaryReader r(in);
	string u;
	for (auto i: r.subtitles()) {
		if (i.underline) {
			u += i.text;
		}
	}
	CHECK(u == "ab");''')

b("C18-polish", "C18", "stl_binary_tables.cc", "\"24\", LANGUAGE_SERBIAN, \"Serbian\"", "\"2C\", LANGUAGE_SERBIAN, \"Serbian\"",
  "a file in Serbian", "its language code is refused, and written files have another one",
  r'''
	STLBinaryTables t;
	CHECK(t.language_file_to_enum("24") == LANGUAGE_SERBIAN);
	CHECK(t.language_enum_to_file(LANGUAGE_SERBIAN) == "24");''')

b("C19-s-circumflex", "C19", "iso6937_tables.cc", "circumflex['s'] = 0x015D;", "circumflex['s'] = 0x015E;",
  "the letter s with a circumflex (or a capital S with a cedilla)", "it is decoded as another letter, and left out when encoding",
  r'''
	CHECK(iso6937_to_utf16("\xc3s") == wstring(1, 0x15d));
	CHECK(utf16_to_iso6937(wstring(1, 0x15d)) == "\xc3s");''')

b("C20-pending-mark", "C20", "iso6937.cc", "\tboost::optional<unsigned char> diacritical;\n", "\tstatic boost::optional<unsigned char> diacritical;\n",
  "a text which ends with a diacritical mark that has no letter, with another text after it", "the first letter of the next text, in any document, is swallowed by the mark",
  r'''
	iso6937_to_utf16("ab\xc2");
	CHECK(iso6937_to_utf16("ab") == L"ab");
	CHECK(iso6937_to_utf16("eb") == L"eb");''')

b("C21-rates", "C21", "sub_time.cc", "\tif (!a._rate && !b._rate) {\n\t\t/* Can compare if neither has a specified frame rate */\n\t\treturn a._frames > b._frames;", "\tif ((!a._rate && !b._rate) || (a._rate && b._rate && a._rate->numerator == b._rate->numerator)) {\n\t\t/* Can compare if neither has a specified frame rate */\n\t\treturn a._frames > b._frames;",
  "two times in the same second whose frame rates have the same numerator but not the same denominator", "a time is neither less than, equal to nor greater than another, or greater and less",
  r'''
	Time a = Time::from_hmsf(0, 0, 1, 10, Rational(24000, 1001));
	Time b = Time::from_hmsf(0, 0, 1, 10, Rational(24000, 1000));
	CHECK(a > b);
	CHECK(b < a);
	CHECK(!(b > a));''')

b("C22-float", "C22", "sub_time.cc", "return _seconds + double(milliseconds()) / 1000;", "return _seconds + float(milliseconds()) / 1000;",
  "a time of an hour or more with a fraction of a second", "the fraction is rounded to that of a float, which is several milliseconds after some hours",
  r'''
	Time a = Time::from_hms(20, 0, 0, 123);
	CHECK(std::fabs(a.all_as_seconds() - 72000.123) < 1e-6);
	a.add(Time::from_hms(0, 0, 1, 0));
	CHECK(a == Time::from_hms(20, 0, 1, 123));''')

b("C23-order", "C23", "collect.h", "std::stable_sort (raw.begin(), raw.end());", "std::sort (raw.begin(), raw.end());",
  "more than 16 raw subtitles of which some start at the same time", "those which start at the same time change their order",
  r'''
	vector<RawSubtitle> raw;
	for (int i = 0; i < 40; ++i) {
		RawSubtitle r;
		r.from = Time::from_hms(0, 0, 1 + i % 2, 0);
		r.to = Time::from_hms(0, 0, 5, 0);
		r.text = string(1, 'A' + i);
		r.vertical_position.line = 0;
		r.vertical_position.reference = TOP_OF_SUBTITLE;
		raw.push_back(r);
	}
	vector<Subtitle> s = collect<vector<Subtitle> >(raw);
	CHECK(s.size() == 2);
	for (size_t i = 0; i < s.size(); ++i) {
		string t;
		for (auto const& b: s[i].lines[0].blocks) {
			t += b.text;
		}
		CHECK(t.size() == 20);
		for (size_t j = 1; j < t.size(); ++j) {
			CHECK(t[j - 1] < t[j]);
		}
	}''')

b("C24-effect-colour", "C24", "subtitle.cc", "a.effect == b.effect && a.effect_colour == b.effect_colour\n", "a.effect == b.effect && (!a.effect || a.effect_colour == b.effect_colour)\n",
  "two blocks without an effect whose effect colours differ", "they compare equal",
  r'''
	Block a, b;
	a.font_size.set_points(10);
	a.font_size.set_proportional(0.1);
	b.font_size = a.font_size;
	CHECK(a == b);
	a.effect_colour = Colour(1, 0, 0);
	CHECK(!(a == b));''')

b("C25-lines", "C25", "vertical_position.cc", "(float (line.get()) / lines.get ())", "(float (line.get() * 2 / lines.get ()) / 2)",
  "a vertical position in lines which is not a multiple of half the number of lines", "it converts to a multiple of half the screen",
  r'''
	VerticalPosition p;
	p.line = 3;
	p.lines = 12;
	p.reference = TOP_OF_SCREEN;
	CHECK(NEAR(p.fraction_from_screen_top(), 0.25));''')

b("C26-frame-rate", "C26", "stl_util.cc", "return fabs (a - b) < 1e-4;", "return fabs (a - b) < 0.03;",
  "a frame rate of 24", "the file has the disk format code of 23.976, which is what it is read back with",
  r'''
	wr(vector<Subtitle>(1, cue(1, "a")), tmp + "/a.stl", 24);
	ifstream f((tmp + "/a.stl").c_str(), ios::binary);
	STLBinaryReader r(f);
	CHECK(r.frame_rate == 24);''')

b("C27-strtok", "C27", "ssa_reader.cc", "\tvector<string> bits;\n\tsplit (bits, t, is_any_of (\":.\"));\n\tSUB_ASSERT (bits.size() == 4);", "\tvector<string> bits;\n\tfor (char* p = strtok (&t[0], \":.\"); p; p = strtok (nullptr, \":.\")) {\n\t\tbits.push_back (p);\n\t}\n\tSUB_ASSERT (bits.size() == 4);",
  "an SSA file read while the program is in the middle of splitting a string with strtok, or in two threads", "strtok's hidden state is changed",
  r'''
	char text[] = "x y z";
	CHECK(string(strtok(text, " ")) == "x");
	SSAReader r(string("[Events]\nFormat: Start, End, Text\nDialogue: 0:00:01.00,0:00:02.00,a\n"));
	CHECK(r.subtitles().size() == 1);
	char* n = strtok(nullptr, " ");
	CHECK(n && string(n) == "y");''')

b("C28-convert", "C28", "subrip_reader.cc", "\t\tms = lexical_cast<int>(b[1]);", "\t\tstd::istringstream in(b[1] + \" \");\n\t\tif (!(in >> ms) || b[1].find_first_not_of(\"+-0123456789\") != string::npos) {\n\t\t\tthrow boost::bad_lexical_cast();\n\t\t}",
  "a program whose global C++ locale groups digits with spaces", "every SubRip file is refused",
  r'''
	struct Group : public std::numpunct<char> { char do_thousands_sep() const { return ' '; } string do_grouping() const { return "\3"; } };
	string const s = "1\n00:00:01,100 --> 00:00:02,250\na\n\n";
	SubripReader a(s);
	std::locale::global(std::locale(std::locale::classic(), new Group));
	SubripReader b(s);
	CHECK(a.subtitles()[0].from == b.subtitles()[0].from);
	CHECK(a.subtitles()[0].to == b.subtitles()[0].to);''')

bug("C29-underline-lines", "C29", [("src/util.cc", "\t\t\tbool underline = false;\n", ""), ("src/util.cc", "\tint n = 0;\n", "\tint n = 0;\n\tbool underline = false;\n")],
  "two subtitles or lines next to each other which both are underlined to their end", "the second has no opening mark of its underlining",
  r"""
	struct Fake : public Reader { Fake() { for (int i = 0; i < 2; ++i) { RawSubtitle r; r.text = "t"; r.underline = true; r.from = Time::from_hms(0, 0, 1 + i * 2, 0); r.to = Time::from_hms(0, 0, 2 + i * 2, 0); _subs.push_back(r); } } };
	stringstream s;
	sub::dump(shared_ptr<const Reader>(new Fake), s);
	string const o = s.str();
	size_t const p = o.find("<u>t</u>");
	CHECK(p != string::npos);
	CHECK(o.find("<u>t</u>", p + 1) != string::npos);""")
