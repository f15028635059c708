"""Codes of EBU Tech 3264 (appendices 1 and 3), by the names that the library's interface gives them"""

LANGUAGES = """
00 UNKNOWN|01 ALBANIAN|02 BRETON|03 CATALAN|04 CROATIAN|05 WELSH|06 CZECH|07 DANISH|08 GERMAN|09 ENGLISH|0A SPANISH|0B ESPERANTO|0C ESTONIAN
0D BASQUE|0E FAROESE|0F FRENCH|10 FRISIAN|11 IRISH|12 GAELIC|13 GALACIAN|14 ICELANDIC|15 ITALIAN|16 LAPPISH|17 LATIN|18 LATVIAN|19 LUXEMBORGIAN
1A LITHUANIAN|1B HUNGARIAN|1C MALTESE|1D DUTCH|1E NORWEGIAN|1F OCCITAN|20 POLISH|21 PORTUGESE|22 ROMANIAN|23 ROMANSH|24 SERBIAN|25 SLOVAK
26 SLOVENIAN|27 FINNISH|28 SWEDISH|29 TURKISH|2A FLEMISH|2B WALLON
7F AMHARIC|7E ARABIC|7D ARMENIAN|7C ASSAMESE|7B AZERBAIJANI|7A BAMBORA|79 BIELORUSSIAN|78 BENGALI|77 BULGARIAN|76 BURMESE|75 CHINESE|74 CHURASH
73 DARI|72 FULANI|71 GEORGIAN|70 GREEK|6F GUJURATI|6E GURANI|6D HAUSA|6C HEBREW|6B HINDI|6A INDONESIAN|69 JAPANESE|68 KANNADA|67 KAZAKH|66 KHMER
65 KOREAN|64 LAOTIAN|63 MACEDONIAN|62 MALAGASAY|61 MALAYSIAN|60 MOLDAVIAN|5F MARATHI|5E NDEBELE|5D NEPALI|5C ORIYA|5B PAPAMIENTO|5A PERSIAN
59 PUNJABI|58 PUSHTU|57 QUECHUA|56 RUSSIAN|55 RUTHENIAN|54 SERBO_CROAT|53 SHONA|52 SINHALESE|51 SOMALI|50 SRANAN_TONGO|4F SWAHILI|4E TADZHIK
4D TAMIL|4C TATAR|4B TELUGU|4A THAI|49 UKRANIAN|48 URDU|47 UZBEK|46 VIETNAMESE|45 ZULU
"""
LANGUAGE = {x.split()[1]: x.split()[0] for l in LANGUAGES.split("\n") for x in l.split("|") if x.strip()}
assert len(LANGUAGE) == 103, len(LANGUAGE)

# enumeration -> {enumerator: (code in the file, description)}
CODES = {
    "DisplayStandard": {"DISPLAY_STANDARD_UNDEFINED": " ", "DISPLAY_STANDARD_OPEN_SUBTITLING": "0", "DISPLAY_STANDARD_LEVEL_1_TELETEXT": "1",
                        "DISPLAY_STANDARD_LEVEL_2_TELETEXT": "2"},
    "LanguageGroup": {"LANGUAGE_GROUP_LATIN": "00", "LANGUAGE_GROUP_LATIN_CYRILLIC": "01", "LANGUAGE_GROUP_LATIN_ARABIC": "02",
                      "LANGUAGE_GROUP_LATIN_GREEK": "03", "LANGUAGE_GROUP_LATIN_HEBREW": "04", "LANGUAGE_GROUP_UTF8": "U8"},
    "Language": {"LANGUAGE_" + k: v for k, v in LANGUAGE.items()},
    "TimecodeStatus": {"TIMECODE_STATUS_NOT_INTENDED_FOR_USE": "0", "TIMECODE_STATUS_INTENDED_FOR_USE": "1"},
    "CumulativeStatus": {"CUMULATIVE_STATUS_NOT_CUMULATIVE": 0, "CUMULATIVE_STATUS_FIRST": 1, "CUMULATIVE_STATUS_INTERMEDIATE": 2,
                         "CUMULATIVE_STATUS_LAST": 3},
    "Justification": {"JUSTIFICATION_NONE": 0, "JUSTIFICATION_LEFT": 1, "JUSTIFICATION_CENTRE": 2, "JUSTIFICATION_RIGHT": 3},
    "Comment": {"COMMENT_NO": 0, "COMMENT_YES": 1},
}
FIELD = {"DisplayStandard": "display_standard", "LanguageGroup": "language_group", "Language": "language", "TimecodeStatus": "timecode_status",
         "CumulativeStatus": "cumulative_status", "Justification": "justification", "Comment": "comment"}
DFC = {24: "STL24.01", 25: "STL25.01", 30: "STL30.01"}


def enumerators(I, name):
    """name -> value, from the source"""
    e = I.enum.get("sub::" + name)
    if e is None:
        import extract
        raise extract.AnalysisBroken("enumeration %s is not in the source" % name)
    return {k: v for k, v in e["values"]}
