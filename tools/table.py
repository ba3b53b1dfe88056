T = "the current time is a few fixed instants set by the harness"
c("C04", "types 1-3; all 162 bits after the type symbolic, 28-character payload.", ["c04_fields"])
c("C05", "all 162 bits after the type symbolic, 28-character payload.", ["c05_fields"])
c("C06", "424-bit messages; all bits outside texts and ETA symbolic together (c06_fields); each of the three texts fully symbolic with the other two and the ETA fixed.",
  ["c06_fields", "c06_call", ("c06_name", dict(cost=2)), ("c06_dest", dict(cost=2))], outside="several texts symbolic at once; ETA (C07).")
c("C08", "all 162 bits after the type symbolic, 28-character payload.", ["c08_fields"])
c("C09", "all 90 bits after the type symbolic, 16-character payload.", ["c09_fields"])
c("C13", "types 9 (28 characters), 10 (12 characters) and 6 (16 characters); all bits after the type symbolic.", ["c13_sar", "c13_utc", "c13_binary"])
c("C03", "28-character payloads (short: 1-21) with an illegal ASCII character at each position, the rest legal and symbolic; 12-character payloads of six message types with every ASCII mix; a 2- to 4-byte UTF-8 character at each position of 16; message type of 17-character payloads of all 64 types; payloads of 53 to 250 characters of eight types with an illegal or any legal character at seven places.",
  [("c03_illegal", dict(cost=3)), ("c03_illegal_short", dict(cost=2)), ("c03_any", dict(cost=5)), ("c03_utf8", dict(cost=2)), ("c03_type", dict(cost=6)), "c03_long"], outside="other long payloads")
c("C07", "each of the five ETA fields over its whole bit range, with the time of the report any second of thirteen days (first and last days of months and years, February 28 and 29 in leap and other years, around 2100, mid-year).",
  [(h, dict(cost=2)) for h in ("c07_mid", "c07_leap", "c07_newyear", "c07_century", "c07_january", "c07_feb28", "c07_feb28_leap", "c07_march", "c07_april", "c07_february", "c07_december", "c07_eight_years", "c07_end_leap")], outside="other days")
c("C10", "part A and part B messages of 28 characters; all numeric bits symbolic together, each text symbolic with the others fixed.", ["c10_fields", ("c10_name", dict(cost=2)), "c10_call", "c10_vendor", "c10_part"])
c("C11", "histories of three and four (thorough: five) parts from two vessels with symbolic MMSIs, kinds and order; three parts with possibly empty texts and all other bits symbolic; parts of 270 vessels pending at once. Texts are symbolic in two characters.", [("c11_three", dict(cost=5)), ("c11_blank", dict(cost=5)), "c11_many", ("c11_four", dict(cost=9)), ("c11_five", dict(cost=20, tier="thorough"))], outside="longer histories")
c("C12", "272-bit messages without and 272+84-bit ones with name extension; numeric bits symbolic together, texts symbolic in halves (thorough: together).", ["c12_fields", ("c12_name", dict(cost=6, tier="thorough")), "c12_start", "c12_end", "c12_blanks", "c12_ext", "c12_both"])
c("C23", "every MMSI a 32-bit field can hold: MIDs 0-4294 one by one, the lower six digits symbolic.", ["c23_message", "c23_rest"])

c("C17", "GGA with every field well-formed and all digits symbolic (1-4 digits per number, 2-3 decimals of minutes); each field missing, alone, or cut off; each field an arbitrary ASCII text of up to 4 characters; times of up to 9 arbitrary characters; numbers of up to 9 digits, one at a time.",
  ["c17_fields", "c17_empty", "c17_cut", "c17_any", ("c17_any4", dict(cost=2)), "c17_time", "c17_wide"], outside="exponents, leading plus signs and bare points in numbers; " + T)
c("C18", "RMC with all digits symbolic, each field missing or cut off; each field an arbitrary ASCII text of up to 4 characters; every 6-digit time and every 6-digit date, and dates and times of other lengths with arbitrary characters; numbers of up to 9 digits, one at a time.",
  ["c18_fields", ("c18_time", dict(cost=4)), "c18_date", ("c18_empty", dict(cost=2)), ("c18_cut", dict(cost=2)), "c18_any", ("c18_any4", dict(cost=2)), "c18_letters", "c18_wide"], outside="dates longer than 6 characters; exponents, leading plus signs and bare points in numbers")
c("C19", "GLL and VTG with all digits symbolic; fields cut off or arbitrary ASCII texts of up to 3 characters, GLL times up to 9; numbers of up to 9 digits in VTG, one at a time.",
  ["c19_gll", ("c19_gll_any", dict(cost=2)), "c19_vtg", "c19_vtg_any", "c19_vtg_any3", "c19_vtg_faa", "c19_vtg_wide"], outside="" + T)
c("C20", "GSA with 12 PRN fields of up to 3 symbolic digits and the three dilutions symbolic; gaps, cut sentences; each field an arbitrary ASCII text of up to 3 characters; dilutions of up to 9 digits, one at a time.",
  ["c20_fields", "c20_gaps", "c20_empty", "c20_any", "c20_any3", "c20_modes", "c20_cut", "c20_wide"], outside="more than 17 fields")
c("C21", "latitudes and longitudes of GGA, RMC and GLL with all digits symbolic and 1-8 decimals; arbitrary ASCII texts of up to 10 characters as coordinates; one 2- to 4-byte UTF-8 character in place of each character.",
  ["c21_gga", "c21_rmc", "c21_gll", "c21_hemisphere", "c21_any", "c21_any_gga", "c21_any_rmc", ("c21_utf8", dict(cost=2))], outside="longer texts")
c("C02", "every two-character checksum text and texts of 0, 1, 3 and 4 characters; bodies: any ASCII talker or type, a 28-character position report, a fragment, RMC, VTG and GSV with symbolic contents; an extra '*' at 31 positions; a corrupted sentence of four kinds between the parts of three kinds of pending message; bodies of 80 to 400 characters with a symbolic character at eight places.",
  [("c02_header", dict(cost=2)), "c02_vdm", ("c02_fragment", dict(cost=2)), "c02_rmc", "c02_gsv", "c02_vtg", ("c02_length", dict(cost=2)), ("c02_stars", dict(cost=2)), "c02_pending", "c02_long"], outside="other bodies; non-ASCII bodies")
c("C25", "every payload length of every supported type (1 character up to the full layout), numeric bits symbolic, texts fixed or (name, name extension) symbolic in the first two and up to six characters beside the cut; 16 symbolic characters after the layout; any two-character message id, channel and fill-bits fields.",
  ["c25_position", "c25_classb", "c25_sar", "c25_long", "c25_inquiry", "c25_binary", "c25_base", "c25_voyage", ("c25_name", dict(cost=2)), "c25_aid", ("c25_ext", dict(cost=3)), "c25_parta", "c25_partb", "c25_tail", "c25_header"], outside="ETA bits symbolic; several texts symbolic at once")
c("C14", "both orders, VDM and VDO, every message id of 0-99, any channel letter or digit; every cut of type 1 messages and of 16-character messages of four types; chosen cuts of types 5, 9, 18 and 21; numeric bits symbolic, of a type 5 name eight characters; each message delivered twice.",
  [("c14_position", dict(cost=3)), "c14_classb", "c14_sar", ("c14_other", dict(cost=2)), "c14_voyage", "c14_aid", ("c14_name", dict(cost=3))], outside="longer message ids (C15); other channel texts")
c("C15", "three (thorough: four) fragments with symbolic kind, part number, one-digit id, channel and content; pairs with ids of 0-99; ids of 3, 4, 9, 10 and 19 digits differing in up to three digits; eight kinds of odd fragment between two that belong together; 270 messages pending at once, five of them completed; 270 other sentences between two fragments.",
  [("c15_three", dict(cost=4)), ("c15_ids", dict(cost=2)), "c15_long", ("c15_odd", dict(cost=2)), ("c15_many", dict(cost=4)), "c15_later", ("c15_four", dict(cost=20, tier="thorough"))], outside="longer histories; more than two fragments")
c("C16", "histories of up to five sentences (thorough: also of groups of three) from three talkers of one, two and three sentences per group with symbolic satellites, every order and repetition; groups of 3, 4 and 9 sentences with every pair of late sentences, twice; two symbolic talkers; 0-4 satellites per sentence with 2- and 3-digit fields, each entry's fields empty in every way; every count and number of up to two digits, longer ones with symbolic first and last digit; arbitrary two-character texts as count or number; groups of 10, 12, 21 and 101 sentences in four orders; groups of 260 talkers pending at once.",
  ["c16_fields", "c16_empty", "c16_cut", "c16_two", "c16_two4", "c16_three", "c16_two5", ("c16_three5", dict(cost=10, tier="thorough")), "c16_single", "c16_long", "c16_talkers", "c16_numbers", "c16_big", "c16_odd", "c16_many", "c16_dozen"], outside="malformed satellite fields; repeated sentences with different contents")
c("C22", "any three ASCII characters as sentence type; any two ASCII characters as talker or station prefix; all 64 message types, 28-character payloads; headers of 0-8 ASCII characters; ASCII texts without comma of up to 9 characters.",
  ["c22_types", "c22_kinds", "c22_unimplemented", "c22_talker", "c22_station", "c22_own24", "c22_messages", "c22_headers", "c22_comma"], outside="non-ASCII headers; the kind of error for headers that are too short")
c("C24", "a fragment (either one), two sentences of a GSV group and a part of type 24 (either one) pending at once, their contents symbolic where the sentence between is fixed in shape; between them and their completion: one complete AIS message of every supported type (also of the vessel whose part is pending) or GNSS sentence with symbolic contents; GNSS sentences with arbitrary ASCII fields of up to 3 characters; rejected GSV sentences with counts or numbers of up to 4 characters; rejected fragments of the pending message; headers of up to 7 ASCII characters; unsupported message types, single or in two fragments; illegal payload characters; wrong checksums of 16 kinds of sentences; two (thorough: three) sentences of eight kinds; 270 equal sentences of six kinds; the same payload twice, with another talker, channel or sentence tag, with one character changed, and after the clock moved forward or back.",
  ["c24_ais", "c24_same_vessel", "c24_static", "c24_gnss", ("c24_malformed", dict(cost=3)), ("c24_gsv", dict(cost=3)), "c24_fragment", "c24_corrupted", "c24_header", "c24_unsupported", "c24_illegal", "c24_later", "c24_repeat", "c24_similar", "c24_talkers", "c24_clock", ("c24_two", dict(cost=2)), ("c24_three", dict(cost=10, tier="thorough"))], outside="longer histories")
H01 = [("c01_fields", dict(cost=9)), ("c01_utf8_gnss", dict(cost=7)), ("c01_vdm", dict(cost=4)), ("c01_aid", dict(cost=5)), ("c01_long", dict(cost=3)), ("c01_cut", dict(cost=3))]
H01 += ["c01_short", "c01_header", "c01_utf8_ais", "c01_utf8_two", "c01_gga", "c01_rmc", "c01_gsa", "c01_gsv", "c01_vtg", "c01_time", "c01_ais", "c01_base", "c01_voyage", "c01_aid_ext", "c01_other", "c01_type", "c01_oversized", "c01_eta", "c01_date", "c01_fragments", "c01_counts", "c01_groups", "c01_parts", "c01_commas", "c01_texts", "c01_limits", "c01_wide_texts", "c01_lengths"]
c("C01", "ASCII texts of 0-4 characters; headers of 0-8 ASCII characters; ten sentences of all kinds cut anywhere or with any field an ASCII text of up to 4 characters or a number of 10-25 digits; 4 non-ASCII characters of 1-4 bytes at every place, beside any ASCII character; times and dates of 0-8 characters; AIS payloads of every message type and many lengths up to 260 characters with symbolic bits; every ETA field at 52 points in time; every type 4 date and time; numbers around the limits of the integer types in two neighbouring fields; 0-41 equal fields after nine headers, with any ASCII character at the end; 13 sentence beginnings followed by 83 to 700 equal ASCII or (up to 300 bytes of) non-ASCII characters with any ASCII character among or after them; histories of up to three fragments, GSV sentences or type 24 parts with any numbers. Overflow checks are on.",
  H01, outside="other non-ASCII characters; longer arbitrary texts and histories; release builds without overflow checks (where overflow wraps) beyond what the values checked by the other properties show")
c("C26", "all bits after the type symbolic for types 1-3, 6, 9, 18 and 27; latitude and longitude bits symbolic for type 4, numeric bits for type 21; GGA, RMC and GLL with symbolic digits or without position.",
  ["c26_dynamic", "c26_sar", "c26_base", "c26_aid", "c26_gnss", "c26_binary"])
