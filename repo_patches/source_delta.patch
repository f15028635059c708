From ce828a0f72ebb1ba4be76b4a4afd8116939c0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 01/37] fix: do not look at the back of an empty colour stack
 after an unmatched </font>

---
 src/subrip_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b95e6be..418c6e9 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -301,10 +301,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
 			/* Maybe there were no colours, or this is an extra unmatched </font> */
-			if (!colours.empty()) {
+			if (colours.size() > 1) {
 				colours.pop_back();
-				p.colour = colours.back();
 			}
+			p.colour = colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
-- 
2.43.0


From 6e7a549e5beaf73314b926ee3cd7e4724565b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 02/37] fix: do not add to the ISO 6937 tables, or dereference
 a null table, when decoding an undefined code

---
 src/iso6937.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 8409f9b..a67afdf 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -50,10 +50,19 @@ sub::iso6937_to_utf16 (string s)
 		if (u >= 0xc1 && u <= 0xcf) {
 			diacritical = u;
 		} else if (diacritical) {
-			o += (*iso6937::diacriticals[diacritical.get()])[u];
+			auto const table = iso6937::diacriticals.find(diacritical.get());
+			if (table != iso6937::diacriticals.end()) {
+				auto const c = table->second->find(u);
+				if (c != table->second->end()) {
+					o += c->second;
+				}
+			}
 			diacritical.reset ();
 		} else {
-			o += iso6937::main[u];
+			auto const c = iso6937::main.find(u);
+			if (c != iso6937::main.end()) {
+				o += c->second;
+			}
 		}
 
 		++i;
-- 
2.43.0


From 8971f658d790b5983f7431adaece50b81ef1ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 03/37] fix: compare times with different frame rates by the
 time that their frames represent

---
 src/sub_time.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 763b4e4..458a1d6 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -21,6 +21,7 @@
 #include "sub_assert.h"
 #include "exceptions.h"
 #include <cmath>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 
@@ -47,7 +48,7 @@ sub::operator< (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) < (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) < (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -66,7 +67,7 @@ sub::operator> (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) > (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) > (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -85,7 +86,7 @@ sub::operator== (sub::Time const & a, sub::Time const & b)
 		return false;
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) == (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) == (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
-- 
2.43.0


From 6f77a2c326c8764dc18cbf31e691031051523ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 04/37] fix: read the STL character code table U8 as UTF-8, not
 Latin/Hebrew

---
 src/stl_binary_tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_tables.cc b/src/stl_binary_tables.cc
index 2d275df..f606e7c 100644
--- a/src/stl_binary_tables.cc
+++ b/src/stl_binary_tables.cc
@@ -211,7 +211,7 @@ STLBinaryTables::STLBinaryTables ()
 	code<LanguageGroup, string> (_language_group_map, "02", LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic");
 	code<LanguageGroup, string> (_language_group_map, "03", LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek");
 	code<LanguageGroup, string> (_language_group_map, "04", LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew");
-	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_LATIN_HEBREW, "UTF-8");
+	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_UTF8, "UTF-8");
 
 	code<Language, string> (_language_map, "00", LANGUAGE_UNKNOWN, "Unknown");
 	code<Language, string> (_language_map, "01", LANGUAGE_ALBANIAN, "Albanian");
-- 
2.43.0


From 19119f123224dfeb192df25ae9dd8a0281059061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 05/37] fix: do not split lines of more than 255 bytes when
 reading from a FILE

---
 src/util.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 244630d..3bca321 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -73,13 +73,18 @@ sub::get_line_string (string* s)
 optional<string>
 sub::get_line_file (FILE* f)
 {
+	optional<string> line;
+
+	/* Keep going until we have the whole of the line, however long it is */
 	char buffer[256];
-	char* r = fgets (buffer, sizeof (buffer), f);
-	if (r == 0) {
-		return optional<string> ();
+	while (fgets (buffer, sizeof (buffer), f)) {
+		line = line.get_value_or ("") + buffer;
+		if (line->find ("\n") != string::npos) {
+			break;
+		}
 	}
 
-	return string (buffer);
+	return line;
 }
 
 void
-- 
2.43.0


From 346d329bb2a761da21e9f12dbd8e80981472f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 06/37] fix: close the file if a SubRip file cannot be parsed

---
 src/reader_factory.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 282f14b..c7db063 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -53,9 +53,9 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".srt") {
 		FILE* f = fopen (file_name.string().c_str(), "r");
 		SUB_ASSERT (f);
-		shared_ptr<Reader> r (new SubripReader(f));
-		fclose (f);
-		return r;
+		/* This closes the file however we leave this block */
+		shared_ptr<FILE> closer (f, fclose);
+		return shared_ptr<Reader> (new SubripReader(f));
 	}
 
 	return shared_ptr<Reader> ();
-- 
2.43.0


From 98c110b6e3a7a6af1bb3b6d166fa55f83a8fbf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 07/37] fix: do not use the total number of lines of a vertical
 position which does not have one

---
 src/stl_binary_writer.cc | 2 +-
 src/vertical_position.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1b1d52f..82a138f 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -125,7 +125,7 @@ vertical_position (sub::Line const & line)
 		default:
 			break;
 		}
-	} else if (line.vertical_position.line) {
+	} else if (line.vertical_position.line && line.vertical_position.lines) {
 		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index aca327f..62bed2d 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -25,7 +25,7 @@ using namespace sub;
 float
 VerticalPosition::fraction_from_screen_top () const
 {
-	if (!reference || (!proportional && !line)) {
+	if (!reference || (!proportional && !(line && lines))) {
 		return 0;
 	}
 
-- 
2.43.0


From 4b16058222c6a952bbf25ca8a351a34534b60cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 08/37] fix: give SSA styles without a colour a default whose
 components are between 0 and 1

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1302b6b..7459043 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -81,7 +81,7 @@ class Style
 public:
 	Style ()
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
@@ -92,7 +92,7 @@ public:
 
 	Style (string format_line, string style_line)
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
-- 
2.43.0


From eb038310cedb0c08bcc59d86e549e2b77bc2aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 09/37] fix: read the last line of an STL text file which does
 not end in a newline

---
 src/stl_text_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f08a438..8fc37e7 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -46,8 +46,8 @@ STLTextReader::STLTextReader (istream& in)
 
 	while (in.good ()) {
 		string line;
-		getline (in, line);
-		if (!in.good ()) {
+		/* The last line of the file may have no newline */
+		if (!getline (in, line)) {
 			return;
 		}
 
-- 
2.43.0


From eb6093b3354dc46fed6b2b8046bcdd7f967af960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 10/37] fix: number the lines of an STL text subtitle from 0
 upwards, whatever formatting they contain

---
 src/stl_text_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 8fc37e7..65de2d9 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -100,6 +100,8 @@ STLTextReader::STLTextReader (istream& in)
 			_subtitle.from = from.get ();
 			_subtitle.to = to.get ();
 
+			_subtitle.vertical_position.line = 0;
+
 			/* Parse ^B/^I/^U */
 			string text = line.substr (divider[1] + 1);
 			for (size_t i = 0; i < text.length(); ++i) {
@@ -167,6 +169,5 @@ STLTextReader::maybe_push ()
 	if (!_subtitle.text.empty ()) {
 		_subs.push_back (_subtitle);
 		_subtitle.text.clear ();
-		_subtitle.vertical_position.line = 0;
 	}
 }
-- 
2.43.0


From cfcb5c2d197d93f6447e5a92814d003cc1abdd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 11/37] fix: do not put text with different horizontal
 positions on the same line

---
 src/subtitle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subtitle.cc b/src/subtitle.cc
index 2b98cb2..39820b2 100644
--- a/src/subtitle.cc
+++ b/src/subtitle.cc
@@ -46,7 +46,7 @@ Line::Line (RawSubtitle s)
 bool
 Line::same_metadata (RawSubtitle s) const
 {
-	return vertical_position == s.vertical_position;
+	return horizontal_position == s.horizontal_position && vertical_position == s.vertical_position;
 }
 
 Block::Block (RawSubtitle s)
-- 
2.43.0


From e2e0a31c851f28f13214b180d7c6dbb6258d3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 12/37] fix: do not let a long STL text row overwrite the
 maximum number of rows

---
 src/stl_binary_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 82a138f..dbd24b8 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -366,7 +366,7 @@ sub::write_stl_binary (
 	/* Total number of subtitle groups */
 	put_string (buffer + 248, "001");
 	/* Maximum number of displayable characters in any text row */
-	put_int_as_string (buffer + 251, longest, 2);
+	put_int_as_string (buffer + 251, std::min (longest, 99), 2);
 	/* Maximum number of displayable rows */
 	put_int_as_string (buffer + 253, ROWS, 2);
 	/* Time code status */
-- 
2.43.0


From 390c9dd726bd95ec6e085bcc4599b54488a4f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 13/37] fix: do not leak the TTI blocks if a subtitle cannot be
 written

---
 src/stl_binary_writer.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index dbd24b8..f4cfb44 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -145,11 +145,11 @@ vertical_position (sub::Line const & line)
 	return vp;
 }
 
-vector<char*>
+vector<string>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
 	static int const tti_size = 128;
-	vector<char*> tti;
+	vector<string> tti;
 
 	/* Buffer to build the TTI blocks in */
 	char buffer[tti_size];
@@ -272,9 +272,7 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 			put_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);
 			++block_number;
 
-			char* finished = new char[tti_size];
-			memcpy (finished, buffer, tti_size);
-			tti.push_back (finished);
+			tti.push_back (string (buffer, tti_size));
 		}
 	}
 
@@ -337,7 +335,7 @@ sub::write_stl_binary (
 		}
 	}
 
-	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
+	vector<string> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
 
 	/* Code page: 850 */
 	put_string (buffer + 0, "850");
@@ -386,8 +384,7 @@ sub::write_stl_binary (
 
 	ofstream output (file_name.string().c_str());
 	output.write (buffer, 1024);
-	for (auto i: tti_blocks) {
-		output.write (i, 128);
-		delete[] i;
+	for (auto const& i: tti_blocks) {
+		output.write (i.c_str(), 128);
 	}
 }
-- 
2.43.0


From 8954df64381ab0c3b3faf91d893814d9420e3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 14/37] fix: report a failure to write a binary STL file

---
 src/stl_binary_writer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index f4cfb44..6621979 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -24,6 +24,7 @@
 #include "stl_binary_writer.h"
 #include "subtitle.h"
 #include "iso6937.h"
+#include "exceptions.h"
 #include "stl_util.h"
 #include "compose.hpp"
 #include "sub_assert.h"
@@ -387,4 +388,9 @@ sub::write_stl_binary (
 	for (auto const& i: tti_blocks) {
 		output.write (i.c_str(), 128);
 	}
+
+	output.close ();
+	if (!output) {
+		throw STLError ("Could not write binary STL file " + file_name.string());
+	}
 }
-- 
2.43.0


From a158666191f5258dbf008955ff7381a2b2827d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 15/37] fix: refuse to write a subtitle with no lines to a
 binary STL file

---
 src/stl_binary_writer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 6621979..8220a30 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -317,6 +317,9 @@ sub::write_stl_binary (
 	SUB_ASSERT (publisher.size() <= 32);
 	SUB_ASSERT (editor_name.size() <= 32);
 	SUB_ASSERT (editor_contact_details.size() <= 32);
+	for (auto const& i: subtitles) {
+		SUB_ASSERT (!i.lines.empty ());
+	}
 
 	char buffer[1024];
 	memset (buffer, 0, 1024);
-- 
2.43.0


From f6afeb65baf6189d594027b5be06a841ee97c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 16/37] fix: do not lose a frame when the sum of two times is
 rounded down by floating point error

---
 src/sub_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 458a1d6..560aa5b 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -181,7 +181,7 @@ Time::add (Time t)
 	SUB_ASSERT (t._rate);
 
 	Rational result_rate = max (*_rate, *t._rate);
-	*this = Time::from_frames((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction(), result_rate);
+	*this = Time::from_frames(rint((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction()), result_rate);
 }
 
 void
-- 
2.43.0


From ec8fc510424945df488bb2c51ef4397ffd0ec1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 17/37] fix: keep the frames of a scaled time below its frame
 rate

---
 src/sub_time.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 560aa5b..97d5603 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -194,4 +194,8 @@ Time::scale (float f)
 	double const s = Time::all_as_seconds() * f;
 	_seconds = floor (s);
 	_frames = rint ((s - _seconds) * _rate->fraction());
+	if (_frames >= _rate->integer_fraction()) {
+		++_seconds;
+		_frames = 0;
+	}
 }
-- 
2.43.0


From bb8e8a04d955c19088d6bae1bd594ab836b167c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 18/37] fix: do not write frame numbers as large as the frame
 rate to binary STL time codes

---
 src/stl_binary_writer.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 8220a30..1f16c35 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -108,6 +108,23 @@ put_int_as_int (char* p, int v, unsigned int n)
 	}
 }
 
+/** Write a time code, rounded to the nearest frame (which may be the first frame of the next second) */
+static void
+put_time (char* p, Time t, float frames_per_second)
+{
+	int frames = t.frames_at(sub::Rational(frames_per_second * 1000, 1000));
+	int seconds = t.hours() * 3600 + t.minutes() * 60 + t.seconds();
+	if (frames >= frames_per_second) {
+		frames = 0;
+		++seconds;
+	}
+
+	put_int_as_int (p + 0, seconds / 3600, 1);
+	put_int_as_int (p + 1, (seconds / 60) % 60, 1);
+	put_int_as_int (p + 2, seconds % 60, 1);
+	put_int_as_int (p + 3, frames, 1);
+}
+
 static int
 vertical_position (sub::Line const & line)
 {
@@ -231,15 +248,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Cumulative status */
 		put_int_as_int (buffer + 4, tables.cumulative_status_enum_to_file (CUMULATIVE_STATUS_NOT_CUMULATIVE), 1);
 		/* Time code in */
-		put_int_as_int (buffer + 5, i.from.hours(), 1);
-		put_int_as_int (buffer + 6, i.from.minutes(), 1);
-		put_int_as_int (buffer + 7, i.from.seconds(), 1);
-		put_int_as_int (buffer + 8, i.from.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_time (buffer + 5, i.from, frames_per_second);
 		/* Time code out */
-		put_int_as_int (buffer + 9, i.to.hours(), 1);
-		put_int_as_int (buffer + 10, i.to.minutes(), 1);
-		put_int_as_int (buffer + 11, i.to.seconds(), 1);
-		put_int_as_int (buffer + 12, i.to.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_time (buffer + 9, i.to, frames_per_second);
 		/* Vertical position */
 		put_int_as_int (buffer + 13, top.get(), 1);
 
-- 
2.43.0


From a0398097dbbd999e869c04235329b873e6db5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 19/37] fix: count characters, not bytes, for the maximum
 number of characters in a row of a binary STL file

---
 src/stl_binary_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1f16c35..2331967 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -344,7 +344,7 @@ sub::write_stl_binary (
 		for (auto const& j: i.lines) {
 			int t = 0;
 			for (auto const& k: j.blocks) {
-				t += k.text.size ();
+				t += utf_to_utf<wchar_t>(k.text).size();
 			}
 			longest = std::max (longest, t);
 		}
-- 
2.43.0


From a7078b4616a34f61ab7311a34e01e1035f9cd7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 20/37] fix: do not run the lines of a subtitle together if
 they are on the same row of a binary STL file

---
 src/stl_binary_writer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 2331967..aaba66d 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -191,10 +191,11 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 		for (auto const& j: i.lines) {
 
-			/* CR/LF down to this line */
-			int const vp = vertical_position (j);
+			/* CR/LF down to this line, which must not run into the previous one even if they would be on the same row */
+			int vp = vertical_position (j);
 
 			if (last_vp) {
+				vp = max (vp, last_vp.get() + 1);
 				for (int k = last_vp.get(); k < vp; ++k) {
 					text += "\x8A";
 				}
-- 
2.43.0


From 183f44192e69736c0ac8431e09ac2f8087000fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 21/37] fix: do not write a line number to a binary STL file as
 the row above it because of rounding errors

---
 src/stl_binary_writer.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index aaba66d..32279c4 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -143,17 +143,19 @@ vertical_position (sub::Line const & line)
 		default:
 			break;
 		}
-	} else if (line.vertical_position.line && line.vertical_position.lines) {
-		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
+	} else if (line.vertical_position.line && line.vertical_position.lines.get_value_or (0)) {
+		/* Use integers here so that rounding errors do not move things up by a row */
+		int const n = line.vertical_position.line.get ();
+		int const d = line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
-			vp = prop * ROWS;
+			vp = n * ROWS / d;
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-			vp = (prop + 0.5) * ROWS;
+			vp = (2 * n + d) * ROWS / (2 * d);
 			break;
 		case BOTTOM_OF_SCREEN:
-			vp = (1 - prop) * ROWS;
+			vp = (d - n) * ROWS / d;
 			break;
 		default:
 			break;
-- 
2.43.0


From cf6789c6f819c3febb5d5066f12da5deb16ae079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:06 +0000
Subject: [PATCH 22/37] fix: do not truncate the frame rate of binary STL files
 with 23.976 frames per second

---
 src/stl_binary_reader.cc | 14 +++++++++++---
 src/stl_binary_reader.h  |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7b38065..d9167ea 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -25,7 +25,10 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
+#include <cmath>
 #include <iostream>
+#include <locale>
+#include <sstream>
 
 using std::map;
 using std::vector;
@@ -77,9 +80,11 @@ public:
 		return v;
 	}
 
-	Time get_timecode (int offset, int frame_rate) const
+	Time get_timecode (int offset, float frame_rate) const
 	{
-		return Time::from_hmsf (_buffer[offset], _buffer[offset + 1], _buffer[offset + 2], _buffer[offset + 3], Rational (frame_rate, 1));
+		/* The frame rate may not be an integer (e.g. 23.976) */
+		Rational const rate = frame_rate == rintf (frame_rate) ? Rational (frame_rate, 1) : Rational (rintf (frame_rate * 1000), 1000);
+		return Time::from_hmsf (_buffer[offset], _buffer[offset + 1], _buffer[offset + 2], _buffer[offset + 3], rate);
 	}
 
 protected:
@@ -333,7 +338,10 @@ STLBinaryReader::metadata () const
 	map<string, string> m;
 
 	m["Code page number"] = lexical_cast<string> (code_page_number);
-	m["Frame rate"] = lexical_cast<string> (frame_rate);
+	std::ostringstream rate;
+	rate.imbue (std::locale::classic ());
+	rate << frame_rate;
+	m["Frame rate"] = rate.str ();
 	m["Display standard"] = _tables.display_standard_enum_to_description (display_standard);
 	m["Language group"] = _tables.language_group_enum_to_description (language_group);
 	m["Language"] = _tables.language_enum_to_description (language);
diff --git a/src/stl_binary_reader.h b/src/stl_binary_reader.h
index 75e328a..8bac607 100644
--- a/src/stl_binary_reader.h
+++ b/src/stl_binary_reader.h
@@ -41,7 +41,7 @@ public:
 	std::map<std::string, std::string> metadata () const override;
 
 	int code_page_number;
-	int frame_rate;
+	float frame_rate;
 	DisplayStandard display_standard;
 	LanguageGroup language_group;
 	Language language;
-- 
2.43.0


From b17ea5609e65911e101facca0f1fad4cbe7f8e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:37 +0000
Subject: [PATCH 23/37] fix: carry on with the text of a binary STL subtitle in
 its extension blocks

---
 src/stl_binary_reader.cc | 46 ++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index d9167ea..f512496 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -193,6 +193,12 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	editor_contact_details = reader->get_string(341, 32);
 
 	int highest_line = 0;
+
+	/* What an extension block needs to know about the block before it */
+	int last_extension_block_number = 0xff;
+	RawSubtitle last;
+	string unfinished;
+
 	for (int i = 0; i < tti_blocks; ++i) {
 
 		reader->read (128, "TTI");
@@ -201,6 +207,12 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			continue;
 		}
 
+		/* The blocks of a subtitle are numbered from 0, but the last one is 0xff */
+		int const extension_block_number = reader->get_int(3, 1);
+		bool const extension = last_extension_block_number < 0xf0 &&
+			(extension_block_number == last_extension_block_number + 1 || extension_block_number == 0xff);
+		last_extension_block_number = extension_block_number;
+
 		string const whole = reader->get_string(16, 112);
 
 		/* Split the text up into lines (8Ah is a new line) */
@@ -210,18 +222,14 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 		/* Italic / underline specifications can span lines, so we need to track them
 		   outside the lines loop.
 		*/
-		bool italic = false;
-		bool underline = false;
+		bool italic = extension && last.italic;
+		bool underline = extension && last.underline;
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
 			sub.from = reader->get_timecode(5, frame_rate);
 			sub.to = reader->get_timecode(9, frame_rate);
-			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
-			 * is wrong if the EBN of this TTI block is not 255 (I think).
-			 */
 			sub.vertical_position.line = reader->get_int(13, 1) + j;
-			highest_line = std::max(highest_line, *sub.vertical_position.line);
 			sub.vertical_position.lines = maximum_rows;
 			sub.vertical_position.reference = TOP_OF_SCREEN;
 			sub.italic = italic;
@@ -242,8 +250,24 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 				break;
 			}
 
+			if (extension) {
+				/* Only the first block of a subtitle says when and where it should be (spec page 10),
+				   and this block carries on from where the last one stopped.
+				*/
+				sub.from = last.from;
+				sub.to = last.to;
+				sub.horizontal_position = last.horizontal_position;
+				sub.vertical_position.line = *last.vertical_position.line + (j == 0 ? 0 : 1);
+				if (j == 0) {
+					sub.colour = last.colour;
+				}
+			}
+
+			highest_line = std::max(highest_line, *sub.vertical_position.line);
+
 			/* Loop over characters */
-			string text;
+			string text = (extension && j == 0) ? unfinished : "";
+			unfinished.clear ();
 			for (size_t k = 0; k < lines[j].size(); ++k) {
 
 				unsigned char const c = static_cast<unsigned char> (lines[j][k]);
@@ -314,11 +338,19 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 				sub.underline = underline;
 			}
 
+			if (!text.empty() && (static_cast<unsigned char>(text[text.length() - 1]) & 0xf0) == 0xc0) {
+				/* The character for this accent is in the next block */
+				unfinished = text.substr (text.length() - 1);
+				text.erase (text.length() - 1);
+			}
+
 			if (!text.empty ()) {
 				sub.text = utf_to_utf<char> (iso6937_to_utf16 (text.c_str()));
 				_subs.push_back (sub);
 			}
 
+			last = sub;
+
 			/* XXX: justification */
 		}
 	}
-- 
2.43.0


From 60509d9af0eca96cac48db9b123aa0d02cca8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 24/37] fix: put combining diacriticals before their letters
 when encoding to ISO 6937

---
 src/iso6937.cc        | 12 +++++++++++-
 src/iso6937.py        |  2 +-
 src/iso6937_tables.cc |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index a67afdf..27789e1 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -95,7 +95,17 @@ sub::utf16_to_iso6937 (wstring s)
 	string o;
 	for (size_t i = 0; i < s.size(); ++i) {
 		optional<char> c = find (iso6937::main, s[i]);
-		if (c) {
+		map<char, map<char, wchar_t> *>::const_iterator const combining = c ? iso6937::diacriticals.find (c.get ()) : iso6937::diacriticals.end ();
+		if (combining != iso6937::diacriticals.end ()) {
+			/* In ISO6937 a diacritical mark comes before its letter; leave it out if ISO6937 does not have the two together */
+			size_t const n = o.length ();
+			if (
+				n > 0 && combining->second->find (o[n - 1]) != combining->second->end () &&
+				(n == 1 || iso6937::diacriticals.find (o[n - 2]) == iso6937::diacriticals.end ())
+			   ) {
+				o.insert (n - 1, 1, c.get ());
+			}
+		} else if (c) {
 			o += c.get ();
 		} else {
 			for (map<char, map<char, wchar_t> *>::const_iterator j = iso6937::diacriticals.begin(); j != iso6937::diacriticals.end(); ++j) {
diff --git a/src/iso6937.py b/src/iso6937.py
index f1e6c56..bdb3e16 100644
--- a/src/iso6937.py
+++ b/src/iso6937.py
@@ -180,7 +180,7 @@ print("\tmain[200U] = 0x0308;", file=output_c)
 print("\tmain[202U] = 0x030A;", file=output_c)
 print("\tmain[203U] = 0x0327;", file=output_c)
 print("\tmain[205U] = 0x030B;", file=output_c)
-print("\tmain[206U] = 0x032B;", file=output_c)
+print("\tmain[206U] = 0x0328;", file=output_c)
 print("\tmain[207U] = 0x030C;", file=output_c)
 print("\tmain[208U] = 0x2015;", file=output_c)
 print("\tmain[209U] = 0x00B9;", file=output_c)
diff --git a/src/iso6937_tables.cc b/src/iso6937_tables.cc
index 628557f..c335c3e 100644
--- a/src/iso6937_tables.cc
+++ b/src/iso6937_tables.cc
@@ -350,7 +350,7 @@ sub::make_iso6937_tables ()
 	main[202U] = 0x030A;
 	main[203U] = 0x0327;
 	main[205U] = 0x030B;
-	main[206U] = 0x032B;
+	main[206U] = 0x0328;
 	main[207U] = 0x030C;
 	main[208U] = 0x2015;
 	main[209U] = 0x00B9;
-- 
2.43.0


From 4aa36a4bd4eaf7e0894c391c54ced347e73a8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:16 +0000
Subject: [PATCH 25/37] fix: do not drop the last digit of a start time in STL
 text which has no space after it

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 65de2d9..3926e6e 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -84,7 +84,7 @@ STLTextReader::STLTextReader (istream& in)
 				continue;
 			}
 
-			string from_string = line.substr (0, divider[0] - 1);
+			string from_string = line.substr (0, divider[0]);
 			trim (from_string);
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
 			trim (to_string);
-- 
2.43.0


From 5ccd1e032b895161622b1f5de0b53990feeb654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 26/37] fix: take a margin of 0000 in an SSA event as the
 margin of the style

---
 src/ssa_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 7459043..d48b0e3 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -552,16 +552,16 @@ SSAReader::read (function<optional<string> ()> get_line)
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (event[i] != "0" && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (raw_convert<float>(event[i]) != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
 							/* Override the style if its non-zero */
 							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
 						}
 					} else if (event_format[i] == "MarginL") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							left_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "MarginR") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							right_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "Text") {
-- 
2.43.0


From 0c1e7b5c19fd3f9608663b0cab92374df8528df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:53 +0000
Subject: [PATCH 27/37] fix: keep the vertical margin of a vertically centred
 SSA style in case the event is aligned elsewhere

---
 src/ssa_reader.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index d48b0e3..5a39015 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -546,13 +546,12 @@ SSAReader::read (function<optional<string> ()> get_line)
 						sub.effect = style->effect;
 						sub.horizontal_position.reference = style->horizontal_reference;
 						sub.vertical_position.reference = style->vertical_reference;
-						if (sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
-						}
+						/* This is ignored if the subtitle ends up being vertically centred */
+						sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (raw_convert<float>(event[i]) != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (raw_convert<float>(event[i]) != 0) {
 							/* Override the style if its non-zero */
 							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
 						}
-- 
2.43.0


From 85eb603c2bed496f84c631929ceddb20ddf9f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:39 +0000
Subject: [PATCH 28/37] fix: do not let an SSA override in a SubRip file change
 the text before it

---
 src/subrip_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 418c6e9..abb6785 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -306,6 +306,8 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			}
 			p.colour = colours.back();
 		} else if (has_next(t, i, "{\\")) {
+			/* As with the other tags, this must not change the text before it */
+			maybe_content (p);
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
 				ssa += t[i];
-- 
2.43.0


From 14adff887c56850d3a92c8236217045447d0cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:39 +0000
Subject: [PATCH 29/37] fix: read an STL text file with STL in its first line
 as text

---
 src/reader_factory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index c7db063..ac22bda 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -38,12 +38,12 @@ sub::reader_factory (boost::filesystem::path file_name)
 	transform (ext.begin(), ext.end(), ext.begin(), ::tolower);
 
 	if (ext == ".stl") {
-		/* Check the start of the DFC */
+		/* Check the form of the DFC (STLnn.nn), as "STL" could be in the first line of a text file */
 		ifstream f (file_name.string().c_str ());
 		char buffer[11];
 		f.read (buffer, 11);
 		f.seekg (0);
-		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
+		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L' && buffer[8] == '.') {
 			return shared_ptr<Reader> (new STLBinaryReader (f));
 		} else {
 			return shared_ptr<Reader> (new STLTextReader (f));
-- 
2.43.0


From 1c7b0c8833ec5c1e21832ec6ffec8af5231cb80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:22 +0000
Subject: [PATCH 30/37] fix: do not take SSA's scaling, spacing and clipping
 overrides for font sizes and colours

---
 src/ssa_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 5a39015..6fe6de2 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -283,6 +283,8 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
+	} else if (boost::starts_with(tag, "\\fsc") || boost::starts_with(tag, "\\fsp") || boost::starts_with(tag, "\\clip")) {
+		/* Scaling, spacing and clipping are not supported */
 	} else if (boost::starts_with(tag, "\\fs")) {
 		SUB_ASSERT (tag.length() > 3);
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
-- 
2.43.0


From a1312cbfa6548ee6edaeb07e468cae704ec7e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:22 +0000
Subject: [PATCH 31/37] fix: warn about STL text times and font sizes which are
 not numbers instead of throwing bad_lexical_cast

---
 src/stl_text_reader.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 3926e6e..d1b36a2 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -144,7 +144,13 @@ STLTextReader::time (string t) const
 		return optional<Time> ();
 	}
 
-	return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	try {
+		return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	} catch (boost::bad_lexical_cast &) {
+		warn (String::compose ("Unrecognised time %1", t));
+	}
+
+	return optional<Time> ();
 }
 
 void
@@ -159,7 +165,11 @@ STLTextReader::set (string name, string value)
 	} else if (name == "$Underlined") {
 		_subtitle.underline = value == "True";
 	} else if (name == "$FontSize") {
-		_subtitle.font_size.set_points (lexical_cast<int> (value));
+		try {
+			_subtitle.font_size.set_points (lexical_cast<int> (value));
+		} catch (boost::bad_lexical_cast &) {
+			warn (String::compose ("Unrecognised font size %1", value));
+		}
 	}
 }
 
-- 
2.43.0


From 98d34f7809c4c2ae7504db043f459054a8e761e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:47 +0000
Subject: [PATCH 32/37] fix: read every SSA override which stands between the
 same braces in a SubRip line

---
 src/subrip_reader.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index abb6785..51af4e7 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -308,13 +308,19 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		} else if (has_next(t, i, "{\\")) {
 			/* As with the other tags, this must not change the text before it */
 			maybe_content (p);
+			SSAReader::Context const context{288, 288, Colour(1, 1, 1)};
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
+				if (t[i] == '\\') {
+					/* There are several overrides here */
+					SSAReader::parse_tag(p, ssa, context);
+					ssa = "";
+				}
 				ssa += t[i];
 				++i;
 			}
 			++i;
-			SSAReader::parse_tag(p, ssa, SSAReader::Context{288, 288, Colour(1, 1, 1)});
+			SSAReader::parse_tag(p, ssa, context);
 		} else {
 			p.text += t[i];
 			++i;
-- 
2.43.0


From fa82d251b0ce1e0499b274714272515186f87068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:18 +0000
Subject: [PATCH 33/37] fix: numbers in the metadata of binary STL do not
 depend on the locale

---
 src/stl_binary_reader.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index f512496..b536dcf 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -22,7 +22,6 @@
 #include "iso6937.h"
 #include "stl_util.h"
 #include "compose.hpp"
-#include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
 #include <cmath>
@@ -35,7 +34,6 @@ using std::vector;
 using std::cout;
 using std::string;
 using std::istream;
-using boost::lexical_cast;
 using boost::algorithm::replace_all;
 using boost::is_any_of;
 using boost::locale::conv::utf_to_utf;
@@ -369,7 +367,7 @@ STLBinaryReader::metadata () const
 {
 	map<string, string> m;
 
-	m["Code page number"] = lexical_cast<string> (code_page_number);
+	m["Code page number"] = std::to_string (code_page_number);
 	std::ostringstream rate;
 	rate.imbue (std::locale::classic ());
 	rate << frame_rate;
@@ -387,16 +385,16 @@ STLBinaryReader::metadata () const
 	m["Creation date"] = creation_date;
 	m["Revision date"] = revision_date;
 	m["Revision number"] = revision_number;
-	m["TTI blocks"] = lexical_cast<string> (tti_blocks);
-	m["Number of subtitles"] = lexical_cast<string> (number_of_subtitles);
-	m["Subtitle groups"] = lexical_cast<string> (subtitle_groups);
-	m["Maximum characters"] = lexical_cast<string> (maximum_characters);
-	m["Maximum rows"] = lexical_cast<string> (maximum_rows);
+	m["TTI blocks"] = std::to_string (tti_blocks);
+	m["Number of subtitles"] = std::to_string (number_of_subtitles);
+	m["Subtitle groups"] = std::to_string (subtitle_groups);
+	m["Maximum characters"] = std::to_string (maximum_characters);
+	m["Maximum rows"] = std::to_string (maximum_rows);
 	m["Timecode status"] = _tables.timecode_status_enum_to_description (timecode_status);
 	m["Start of programme"] = start_of_programme;
 	m["First in cue"] = first_in_cue;
-	m["Disks"] = lexical_cast<string> (disks);
-	m["Disk sequence number"] = lexical_cast<string> (disk_sequence_number);
+	m["Disks"] = std::to_string (disks);
+	m["Disk sequence number"] = std::to_string (disk_sequence_number);
 	m["Country of origin"] = country_of_origin;
 	m["Publisher"] = publisher;
 	m["Editor name"] = editor_name;
-- 
2.43.0


From 62eecdfc0dceffcd4a293d7720129a41649df3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:30 +0000
Subject: [PATCH 34/37] fix: make the ISO6937 tables only once, whichever
 threads ask for them

---
 src/iso6937.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 27789e1..54e9d70 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -33,12 +33,21 @@ using boost::optional;
 using boost::locale::conv::utf_to_utf;
 using namespace sub;
 
+/** Make the tables if they have not already been made; this may be called from several threads at the same time */
+static void
+make_tables_once ()
+{
+	static bool const made = [] {
+		make_iso6937_tables ();
+		return true;
+	} ();
+	(void) made;
+}
+
 wstring
 sub::iso6937_to_utf16 (string s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	make_tables_once ();
 
 	wstring o;
 
@@ -86,9 +95,7 @@ find (map<char, wchar_t> const & m, wchar_t c)
 string
 sub::utf16_to_iso6937 (wstring s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	make_tables_once ();
 
 	/* XXX: slow */
 
-- 
2.43.0


From 2b44bbf88a023ff2ab166614aa0a48e45a3aaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:42 +0000
Subject: [PATCH 35/37] fix: strip U+202B from every piece of a SubRip line,
 not only the last

---
 src/subrip_reader.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 51af4e7..247d32b 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -327,11 +327,6 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		}
 	}
 
-	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
-	   as a missing character.  This may be a hack.
-	*/
-	replace_all (p.text, "\xe2\x80\xab", "");
-
 	maybe_content (p);
 }
 
@@ -339,6 +334,11 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 void
 SubripReader::maybe_content (RawSubtitle& p)
 {
+	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
+	   as a missing character.  This may be a hack.
+	*/
+	replace_all (p.text, "\xe2\x80\xab", "");
+
 	if (!p.text.empty ()) {
 		_subs.push_back (p);
 		p.text.clear ();
-- 
2.43.0


From 763ad1232abbe761d2cf875966b3fc5933976934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:00 +0000
Subject: [PATCH 36/37] fix: do not take a WebVTT cue's identifier which starts
 with NOTE for a comment, losing the cue

---
 src/web_vtt_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 2105743..d5e61d6 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -91,7 +91,8 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 			state = State::DATA;
 			break;
 		case State::DATA:
-			if (boost::starts_with(*line, "NOTE")) {
+			/* A comment is NOTE, on its own or followed by a blank; anything else is a cue's identifier */
+			if (*line == "NOTE" || boost::starts_with(*line, "NOTE ") || boost::starts_with(*line, "NOTE\t")) {
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
 				/* Further trim this line, removing spaces from the end */
-- 
2.43.0


From 4f8b1e699d7dd553246553056789620dcc92a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:46 +0000
Subject: [PATCH 37/37] fix: leave out the line ends of the lines after a fault
 in the context of a SubripError or WebVTTError

---
 src/subrip_reader.cc  | 1 +
 src/web_vtt_reader.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 247d32b..973d40d 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -122,6 +122,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 				for (int i = 0; i < 2; ++i) {
 					optional<string> ex = get_line ();
 					if (ex) {
+						trim_right_if (*ex, boost::is_any_of ("\n\r"));
 						_context.push_back (*ex);
 					}
 				}
diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index d5e61d6..5e6d7de 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -105,6 +105,7 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 					for (int i = 0; i < 2; ++i) {
 						auto ex = get_line();
 						if (ex) {
+							trim_right_if(*ex, boost::is_any_of("\n\r"));
 							_context.push_back(*ex);
 						}
 					}
-- 
2.43.0

