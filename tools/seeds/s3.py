exec(open("/verif/tools/seeds/s1.py").read().split("b(\"C02")[0])
b("C25-lines", "C25", "vertical_position.cc", "(float (line.get()) / lines.get ())", "(float (line.get() * 100 / lines.get ()) / 100)",
  "a vertical position in lines which is not a whole percentage of the screen", "it is rounded down to one",
  r'''
	VerticalPosition p;
	p.line = 1;
	p.lines = 23;
	p.reference = TOP_OF_SCREEN;
	CHECK(NEAR(p.fraction_from_screen_top(), 1 / 23.0));''')
