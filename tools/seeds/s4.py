exec(open("/verif/tools/seeds/s1.py").read().split("b(\"C02")[0])
bug("C30-separator-count", "C30", [("src/subrip_reader.cc", "\t\t\t\t\tconvert_line(line_number, sub_line, rs);", "\t\t\t\t\tconvert_line(sub_lines.size() > 1 ? line_number++ : line_number, sub_line, rs);")],
  "a SubRip file with a fault after a line which has a U+2028 line separator", "the number of the line in the exception is too large",
  r'''
	try {
		SubripReader r (string ("1\n00:00:01,000 --> 00:00:02,000\none\xe2\x80\xa8two\n\n2\nrubbish\n"));
		CHECK(false);
	} catch (SubripError& e) {
		CHECK(e.line_number() == 6);
	}''')

bug("C29-both-at-end", "C29", [("src/util.cc", "\t\t\tif (underline) {\n\t\t\t\tos << \"</u>\";", "\t\t\tif (underline && !italic) {\n\t\t\t\tos << \"</u>\";")],
  "a line which ends in text that is both italic and underlined", "the mark which ends the underlining is not printed",
  r'''
	{ ofstream f ((tmp + "/a.srt").c_str()); f << "1\n00:00:01,000 --> 00:00:02,000\n<i><u>x</u></i>\n"; }
	{
		ifstream f ((tmp + "/a.srt").c_str());
		stringstream all;
		all << f.rdbuf ();
		stringstream out;
		dump (shared_ptr<Reader> (new SubripReader (all.str())), out);
		CHECK(out.str().find ("</u>") != string::npos);
	}''')

bug("C25-centre-lines", "C25", [("src/vertical_position.cc", "\t\treturn prop + 0.5;", "\t\treturn prop + (proportional ? 0.5 : 0.5 - prop);")],
  "a vertical position given in lines from the centre of the screen", "the lines are ignored",
  r'''
	VerticalPosition p;
	p.line = 3;
	p.lines = 12;
	p.reference = VERTICAL_CENTRE_OF_SCREEN;
	CHECK(NEAR(p.fraction_from_screen_top(), 0.75));''')

bug("C11-after-128-blocks", "C11", [("src/stl_binary_writer.cc", "\t\t\tsize_t this_time = std::min(block_size, text.length() - offset);", "\t\t\tsize_t this_time = std::min(block_size - (block_number > 0 && text.length() - offset > block_size ? 1 : 0), text.length() - offset);")] if 0 else
  [("src/stl_binary_writer.cc", "\t\t\tput_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);", "\t\t\tput_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number & 0x7f, 1);")],
  "a subtitle whose text needs more than 128 blocks", "the numbers of the extension blocks start again from 0",
  r'''
	RawSubtitle r;
	r.from = Time::from_hms (0, 0, 1, 0);
	r.to = Time::from_hms (0, 0, 2, 0);
	r.vertical_position.reference = TOP_OF_SCREEN;
	r.vertical_position.line = 2;
	r.vertical_position.lines = 12;
	r.text = string (112 * 131, 'x');
	vector<RawSubtitle> raw (1, r);
	string const f = tmp + "/a.stl";
	write_stl_binary (collect<vector<Subtitle> > (raw), 25, LANGUAGE_ENGLISH, "", "", "", "", "", "", "990101", "990101", 1, "GBR", "", "", "", boost::filesystem::path (f));
	ifstream in (f.c_str(), ios::binary);
	stringstream all;
	all << in.rdbuf ();
	CHECK(static_cast<unsigned char> (all.str()[1024 + 128 * 129 + 3]) == 129);''')

bug("C17-both-extension", "C17", [("src/stl_binary_reader.cc", "\t\tbool italic = extension && last.italic;", "\t\tbool italic = extension && last.italic && !last.underline;")],
  "a text in italics and underlined which goes on in an extension block", "it is not in italics after the end of the block",
  H + '\nint main (int argc, char** argv)\n{\n\tstring const tmp = argc > 1 ? argv[1] : ".";\n\ttry {\n' + r'''
	ofstream (( tmp + "/a.stl").c_str(), ios::binary) << gsi (2) << tti (string ("\x80\x82") + string (110, 'x'), '\0') << tti ("yy");
	ifstream in ((tmp + "/a.stl").c_str(), ios::binary);
	STLBinaryReader r (in);
	CHECK(r.subtitles().back().text.find ("yy") != string::npos);
	CHECK(r.subtitles().back().underline);
	CHECK(r.subtitles().back().italic);''' + '\n\t} catch (std::exception& e) {\n\t\tcerr << e.what();\n\t\treturn 1;\n\t}\n\treturn failures ? 1 : 0;\n}')

bug("C24-line-horizontal", "C24", [("src/subtitle.cc", "\treturn a.horizontal_position == b.horizontal_position && a.vertical_position == b.vertical_position && a.blocks == b.blocks;", "\treturn a.horizontal_position.reference == b.horizontal_position.reference && a.vertical_position == b.vertical_position && a.blocks == b.blocks;")],
  "two lines at different distances from the same side", "they are taken for equal",
  r'''
	RawSubtitle r;
	r.text = "x";
	r.vertical_position.reference = TOP_OF_SCREEN;
	r.vertical_position.proportional = 0.25;
	r.horizontal_position.reference = LEFT_OF_SCREEN;
	r.horizontal_position.proportional = 0.1;
	Line a (r);
	r.horizontal_position.proportional = 0.4;
	Line b (r);
	CHECK(!(a == b));''')

bug("C23-only-line", "C23", [("src/collect.h", "\t\t\tif (!current->lines.empty() && current->lines.back().same_metadata(i)) {", "\t\t\tif (!current->lines.empty() && (current->lines.front().same_metadata(i) || current->lines.back().same_metadata(i))) {")],
  "a text at the place of the first line after one at another place", "it is put at the end of the last line",
  r'''
	vector<RawSubtitle> raw;
	for (int i = 0; i < 3; ++i) {
		RawSubtitle r;
		r.from = Time::from_hms (0, 0, 1, 0);
		r.to = Time::from_hms (0, 0, 2, 0);
		r.vertical_position.reference = TOP_OF_SCREEN;
		r.vertical_position.proportional = 0.5;
		r.horizontal_position.reference = i == 1 ? RIGHT_OF_SCREEN : LEFT_OF_SCREEN;
		r.text = "abc"[i];
		raw.push_back (r);
	}
	vector<Subtitle> s = collect<vector<Subtitle> > (raw);
	CHECK(s.size() == 1 && s[0].lines.size() == 3);
	for (auto const& l: s[0].lines) {
		for (auto const& b: l.blocks) {
			CHECK((l.horizontal_position.reference == RIGHT_OF_SCREEN) == (b.text == "b"));
		}
	}''')
