exec(open("/verif/tools/seeds/s1.py").read().split("b(\"C02")[0])
b("C04-override-leak", "C04", "subrip_reader.cc", "\t\t\trs = RawSubtitle{};\n\t\t\tprepare(rs);", "\t\t\tprepare(rs);\n\t\t\trs.bold = rs.italic = rs.underline = false;\n\t\t\trs.colour = Colour (1, 1, 1);\n\t\t\trs.horizontal_position = HorizontalPosition ();",
  "a SubRip cue with an {\\fs} override which is followed by one without", "the second cue keeps the font size of the first",
  r'''
	SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\n{\\fs40}a\n\n2\n00:00:03,000 --> 00:00:04,000\nb\n\n"));
	CHECK(r.subtitles().size() == 2);
	CHECK(r.subtitles()[0].font_size.specified());
	CHECK(!r.subtitles()[1].font_size.specified());''')
b("C06-odd-margins", "C06", "ssa_reader.cc", "static_cast<float>(left_margin - right_margin) / (2 * play_res_x);", "static_cast<float>((left_margin - right_margin) / 2) / play_res_x;",
  "a centred SSA event whose margins differ by an odd number of pixels", "it is half a pixel off",
  r'''
	SSAReader r(string("[Script Info]\nPlayResX: 10\nPlayResY: 100\n[Events]\nFormat: Start, End, MarginL, MarginR, Text\nDialogue: 0:00:01.00,0:00:02.00,1,0,a\n"));
	CHECK(r.subtitles().size() == 1);
	CHECK(NEAR(r.subtitles()[0].horizontal_position.proportional, 0.05));''')
