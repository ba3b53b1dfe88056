#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["return value of NmeaParser::parse_sentence"], hook_needed=None)))
LIB="src/lib.rs"; UT="src/util.rs"; AIS="src/ais/mod.rs"
ST=[dict(name="saved_fragments", meaning="sentence fragments waiting for their siblings", where="src/lib.rs NmeaParser"),
    dict(name="saved_vsds", meaning="type 24 parts waiting for the other part, by MMSI", where="src/lib.rs NmeaParser")]

p("C01","Parsing never panics",
  "For every string and every history of earlier calls on the same parser, parsing a sentence returns a result: it never panics, in builds with or without overflow checks. This covers malformed headers, empty or out-of-range fields, non-ASCII text, impossible dates and times, and truncated or oversized AIS payloads.",
  ["inputs","histories"],"every UTF-8 string given to the parser, after every sequence of earlier sentences",
  "The suite feeds about forty well-formed sentences; a panic needs a malformed one (short sentence type, empty time, day 31 of a short month, characters outside the armour alphabet), and there are too many malformed shapes to sample.",
  [LIB,UT,AIS,"src/gnss/*.rs"],[("header slicing","src/lib.rs parse_sentence"),("date and time conversion","src/util.rs, src/ais/vdm_t4.rs"),("payload decoding","src/util.rs parse_payload")],ST)
p("C02","Checksum gate",
  "A sentence of ASCII characters whose text after the last '*' is non-empty and differs from the two upper-case hexadecimal digits of the XOR of all characters between the leading character and that '*' is rejected as a corrupted sentence and leaves the parser's pending state as it was. When those two digits match, or when nothing follows the '*', or when there is no '*', the result is the same as for the sentence without checksum.",
  ["inputs","histories"],"every sentence body and every checksum text, for every kind of sentence, complete or fragment",
  "Two tests use one wrong and one missing checksum; a gate that misses some bytes, some positions or some checksum values passes them.",
  [LIB],[("checksum comparison","src/lib.rs parse_sentence")],ST)
p("C03","Payload armouring is decoded exactly",
  "Each payload character of an AIS sentence stands for six bits: '0'..'W' for 0..39 and '`'..'w' for 40..63, most significant bit first, so the message type and every field depend only on those values. A single-sentence message whose payload holds any other character is rejected with an error and never produces a decoded message.",
  ["inputs"],"every payload character at every position, for payloads up to the stated bound",
  "One unit test decodes six characters; nothing in the suite covers the other 58 legal characters or any illegal one.",
  [UT,LIB],[("six-bit unpacking","src/util.rs parse_payload"),("bit extraction","src/util.rs pick_u64, pick_i64")])
p("C04","Class A position reports (types 1-3)",
  "For every type 1, 2 or 3 message the returned vessel dynamic data carries the values encoded at the ITU-R M.1371 bit positions: MMSI, navigation status, rate of turn and its direction, speed, accuracy, longitude, latitude, course, heading, second, positioning-system state, special-manoeuvre indicator, RAIM flag and 19-bit radio status, marked as class A. Signed coordinates are scaled by 1/600000 degree, speed and course by 0.1, rate of turn is (raw/4.733) squared with the sign of raw for |raw| <= 126, and 'not available' codes (ROT -128, speed 1023, longitude 181, latitude 91, course 3600, heading 511, second 60, manoeuvre 0) give None.",
  ["inputs"],"all 168 message bits, for types 1, 2 and 3",
  "Each type has one or two sample messages; a wrong sign, a shifted bit or a missed 'not available' code is visible only for particular bit patterns.",
  ["src/ais/vdm_t1t2t3.rs",AIS,UT],[("field extraction","src/ais/vdm_t1t2t3.rs handle")])
p("C05","Base station reports (type 4)",
  "For every type 4 message the base station report carries MMSI, UTC year/month/day/hour/minute/second, accuracy, longitude, latitude, position fix type, RAIM flag and radio status from their ITU-R M.1371 bit positions. The timestamp is present with exactly the encoded value when the fields form a valid date and time with a year other than 0 ('not available'), and None otherwise; coordinates 181/91 degrees and fix type 0 give None.",
  ["inputs"],"all 168 message bits",
  "One sample message; the 2^38 date/time combinations include impossible and 'not available' ones that the suite never sends.",
  ["src/ais/vdm_t4.rs",AIS,UT],[("field extraction","src/ais/vdm_t4.rs handle")])
p("C06","Static and voyage data (type 5)",
  "For every type 5 message the vessel static data carries, from the ITU-R M.1371 bit positions, MMSI, AIS version, IMO number (0 gives None), call sign, name, ship and cargo type, the four dimensions, position fix type (0 gives None), draught and destination, marked as class A. Ship-type codes map by their decade (80-89 tanker, 90-99 other, and so on), and a text ends at the first '@', loses trailing spaces, and is None when empty.",
  ["inputs"],"all 424 message bits (texts and numeric fields)",
  "One sample message, checked in two fragment orders; ship-type decades, text terminators and field boundaries are not exercised.",
  ["src/ais/vdm_t5.rs",AIS,UT],[("field extraction","src/ais/vdm_t5.rs handle"),("text decoding","src/util.rs pick_string"),("code tables","src/ais/mod.rs ShipType, CargoType, PositionFixType")])
p("C07","Estimated time of arrival (type 5)",
  "For every type 5 message and every current time, the ETA's month, day, hour and minute are the encoded ones whenever they form a valid date and time, and the ETA is never in the past and never more than a year away unless the encoded day only exists in leap years. An ETA in which month, day, hour and minute are all 'not available' gives None, and an impossible date or time of day (hour above 24, minute above 60) gives None, never a panic or a different date. A valid month and day without a time (hour 24 or minute 60) give an ETA on that day, and in that hour if there is one. What else stands in for single 'not available' parts (month 0, day 0, hour 24, minute 60) and the seconds are left open.",
  ["inputs","configurations"],"all encoded months, days, hours and minutes, for the stated current times",
  "The test compares month, day and time only for one ETA and takes the year from the result itself.",
  [UT,"src/ais/vdm_t5.rs"],[("ETA selection","src/util.rs pick_eta")])
p("C08","Class B position reports (type 18)",
  "For every type 18 message the vessel dynamic data carries MMSI, speed, accuracy, longitude, latitude, course, heading and second from their ITU-R M.1371 bit positions, and the class B flags unit (bit 141), display (142), DSC (143), band (144), message 22 (145), mode (146), RAIM (147) and communication-state selector (148), marked as class B. 'Not available' codes give None, and fields the message does not have (rate of turn, navigation status, ...) are None or undefined.",
  ["inputs"],"all 168 message bits",
  "Two sample messages in which most flag bits coincide; an off-by-one among eight adjacent flag bits is invisible there.",
  ["src/ais/vdm_t18.rs",AIS,UT],[("field extraction","src/ais/vdm_t18.rs handle")])
p("C09","Long-range position reports (type 27)",
  "For every type 27 message the vessel dynamic data carries MMSI, accuracy, RAIM flag, navigation status, longitude and latitude (1/600 degree), speed, course and GNSS position status from their ITU-R M.1371 bit positions, with longitude 181, latitude 91, speed 63 and course 511 giving None. Fields the message does not have are None or zero.",
  ["inputs"],"all 96 message bits",
  "One sample message, whose expected latitude (137 degrees) shows that the expectations were copied from the output.",
  ["src/ais/vdm_t27.rs",AIS,UT],[("field extraction","src/ais/vdm_t27.rs handle")])
p("C10","Class B static data fields (type 24)",
  "When both parts of a type 24 message have been received for an MMSI, in either order, the returned vessel static data carries the name from part A (at most 20 characters) and ship and cargo type, vendor id, model, serial number, call sign and the four dimensions from part B, all from their ITU-R M.1371 bit positions and marked as class B; of an auxiliary craft (MMSI 98xxxxxxx) it also carries the MMSI of its mother ship, the 30 bits in place of the dimensions. Text fields end at the first '@' and lose trailing spaces, an empty name or call sign is None, and a part number other than A or B is an error.",
  ["inputs"],"all message bits of part A and of part B, in both orders",
  "One pair of sample parts in one order; field boundaries and the reverse order are not exercised.",
  ["src/ais/vdm_t24.rs",AIS,UT],[("field extraction","src/ais/vdm_t24.rs handle"),("merge of two parts","src/ais/vdm_t24.rs VesselStaticData::merge")],ST)
p("C11","Class B static parts pair up by vessel",
  "A type 24 part is completed only by the other part (A with B) of the same MMSI; parts of other vessels, other messages in between, and repeated copies of the same part never complete it and give 'incomplete'. When a part is repeated before its counterpart arrives, the newest copy is the one used, and completing a pair consumes it.",
  ["histories","inputs"],"every interleaving of up to four type 24 parts with arbitrary MMSIs and part numbers, with other sentences in between",
  "The only test sends one A part followed by its B part to a fresh parser.",
  ["src/ais/vdm_t24.rs",LIB],[("pending part store","src/lib.rs push_vsd, pull_vsd"),("pairing","src/ais/vdm_t24.rs handle")],ST)
p("C12","Aid-to-navigation reports (type 21)",
  "For every type 21 message the report carries MMSI, aid type, name (20 characters plus the extension), accuracy, longitude, latitude, dimensions, position fix type, second, off-position indicator (bit 259), regional byte, RAIM, virtual-aid and assigned-mode flags from their ITU-R M.1371 bit positions. All 32 aid-type codes map to their own kind, and longitude 181 and latitude 91 give None.",
  ["inputs"],"all 272 fixed message bits and the name extension",
  "Two sample messages, mostly zero in the flag and dimension fields.",
  ["src/ais/vdm_t21.rs",AIS,UT],[("field extraction","src/ais/vdm_t21.rs handle"),("aid type table","src/ais/vdm_t21.rs NavAidType::new")])
p("C13","SAR aircraft, UTC inquiry and addressed binary messages",
  "For every type 9 message the SAR aircraft report carries altitude, speed, accuracy, position, course, second, regional byte, DTE, assigned and RAIM flags and 20-bit radio status; for every type 10 message the inquiry carries both MMSIs; for every type 6 message the addressed message carries MMSI, sequence number, destination MMSI, retransmit flag, DAC and FID. All are taken from their ITU-R M.1371 bit positions, and altitude 4095, speed 1023, course 3600, longitude 181 and latitude 91 give None.",
  ["inputs"],"all message bits of types 6, 9 and 10",
  "One to three sample messages per type.",
  ["src/ais/vdm_t6.rs","src/ais/vdm_t9.rs","src/ais/vdm_t10.rs",UT],[("field extraction","src/ais/vdm_t9.rs, vdm_t10.rs, vdm_t6.rs handle")])
p("C14","Two-part AIS messages reassemble in either order",
  "When the two fragments of a message arrive, in either order, the first call returns 'incomplete' and the second returns exactly what a single sentence carrying the concatenated payload (part 1 then part 2) would return. Afterwards nothing of the message is left pending, so the same fragments can be sent again with the same results.",
  ["inputs","histories"],"every split of every payload up to the stated bound, both orders, repeated deliveries",
  "One type 5 message in one split is tested.",
  [LIB,UT],[("fragment store","src/lib.rs parse_sentence, make_fragment_key")],ST)
p("C15","Fragments of different messages never mix",
  "A fragment is combined only with the fragment that has the other part number and the same sentence type (VDM or VDO), message id and radio channel; a fragment that differs in any of these, lacks a message id, or carries the same part number gives 'incomplete' and does not disturb the pending one. Of two copies of the same fragment the latest is used.",
  ["histories","inputs"],"every pair and triple of fragments over message ids, channels, kinds and part numbers, interleaved with other sentences",
  "The tests never have two messages in flight.",
  [LIB,UT],[("fragment key","src/util.rs make_fragment_key"),("fragment store","src/lib.rs parse_sentence")],ST)
p("C16","GSV groups assemble completely and in order",
  "A group of GSV sentences returns 'incomplete' until all of its sentences have arrived, in any order, and then returns the satellites of sentence 1, 2, ... in that order with PRN, elevation, azimuth and SNR from their fields (empty fields give None, empty PRN entries are skipped). Groups of different talkers never mix, a completed group leaves nothing behind, and message counts or numbers that cannot form a group (zero, or number beyond count) neither complete a group nor hang nor retain state.",
  ["inputs","histories"],"groups of up to three sentences in every order, every count and number value, every field content up to the stated lengths",
  "One group of three in natural order is tested, so order, talkers, counts and empty fields are not.",
  ["src/gnss/gsv.rs",LIB],[("group key and store","src/gnss/gsv.rs handle, make_gsv_key")],ST)
p("C17","GGA fix data fields",
  "For every GGA sentence each output field comes from its own NMEA field: time (today's UTC date with the given hour, minute and second), latitude, longitude, quality, satellite count, HDOP, altitude, geoid separation, DGPS age and station id. An empty field gives None (quality Invalid), a time whose first six characters are not the digits of a valid hour, minute and second gives None, and a non-empty numeric field that is not a number of the field's type makes the sentence invalid.",
  ["inputs","configurations"],"every content of each field up to the stated length, for the stated current times",
  "A few sample sentences; field mix-ups, empty times and malformed numbers are not covered.",
  ["src/gnss/gga.rs",UT],[("field mapping","src/gnss/gga.rs handle"),("number fields","src/util.rs pick_number_field"),("time","src/util.rs parse_hhmmss")])
p("C18","RMC fields and date",
  "For every RMC sentence each output field comes from its own NMEA field: timestamp from DDMMYY and HHMMSS in the current century, status (A active, V void), latitude, longitude, speed, bearing and magnetic variation (E positive, W negative). Impossible or missing dates and times give no timestamp, empty fields give None, and an unknown status, an unknown variation side or a malformed number makes the sentence invalid.",
  ["inputs","configurations"],"every content of each field up to the stated length, for the stated current times",
  "A few sample sentences; leap days, impossible dates, west variation and malformed fields are not covered.",
  ["src/gnss/rmc.rs",UT],[("field mapping","src/gnss/rmc.rs handle"),("date and time","src/util.rs parse_yymmdd_hhmmss")])
p("C19","GLL and VTG fields",
  "For every GLL sentence latitude, longitude, time, validity (A true, V false, otherwise None) and FAA mode come from their own fields; for every VTG sentence true course, magnetic course, speed in knots, speed in km/h and FAA mode come from fields 1, 3, 5, 7 and 9. Empty or malformed VTG numbers and GLL times (as in GGA) give None, and FAA modes A, D, E, N and S map to their own kind while anything else gives None.",
  ["inputs"],"every content of each field up to the stated length",
  "One or two sample sentences per type.",
  ["src/gnss/gll.rs","src/gnss/vtg.rs","src/gnss/mod.rs",UT],[("field mapping","src/gnss/gll.rs, src/gnss/vtg.rs handle"),("FAA mode","src/gnss/mod.rs FaaMode::new")])
p("C20","GSA fields",
  "For every GSA sentence selection mode (M manual, A automatic), fix mode (1, 2, 3), the list of non-empty satellite numbers of fields 3 to 14 in order, and PDOP, HDOP, VDOP come from their own fields. Empty fields give None or no list entry; any other mode, fix mode, satellite number beyond 255 or malformed number makes the sentence invalid.",
  ["inputs"],"every content of each field up to the stated length",
  "Two sample sentences.",
  ["src/gnss/gsa.rs",UT],[("field mapping","src/gnss/gsa.rs handle")])
p("C21","Latitude and longitude text conversion",
  "In every GGA, RMC and GLL sentence a latitude DDMM.M... and longitude DDDMM.M... give degrees plus minutes/60 (within 1e-9 degree), negative exactly for hemisphere S or W. An empty coordinate gives None and any other shape of coordinate makes the sentence invalid, never a wrong position.",
  ["inputs"],"every digit string of the stated lengths, every other string up to the stated length, every hemisphere",
  "The tests use four coordinates and compare to 0.001 degree.",
  [UT,"src/gnss/*.rs"],[("coordinate parsing","src/util.rs parse_latitude_ddmm_mmm, parse_longitude_dddmm_mmm")])
p("C22","Sentence dispatch, talker and station",
  "The three-letter type after the two-letter talker selects the kind of result; the talker selects the reported navigation system (GN, GP, GL, GA, BD, GI, QZ, otherwise Other) or AIS station (AB, AD, AI, AN, AR, AS, AT, AX, otherwise Other), and VDO marks own vessel while VDM does not. Known but unimplemented sentence types, unimplemented AIS message types and unknown types are reported as unsupported, and text without a comma as invalid; none of them ever yields data.",
  ["inputs"],"every two-letter talker and three-letter type, every AIS message type number",
  "The tests use few talkers and check source or station in a handful of sentences.",
  [LIB,AIS,"src/gnss/mod.rs"],[("dispatch","src/lib.rs parse_sentence")])
p("C23","MMSI to country mapping",
  "For every MMSI value the country of a vessel is the ISO 3166 code of its first three digits (of nine) according to the crate's MID table, and None when those digits are not an allocated MID or the MMSI does not have nine digits.",
  ["inputs"],"all 2^32 MMSI values",
  "Fourteen MMSIs are tested out of about 290 table rows and 2^32 values.",
  [AIS,"mid-to-iso3166.py"],[("MID table","src/ais/mod.rs VesselStaticData::country")],observe=["VesselStaticData::country"])
p("C24","Self-contained and rejected sentences leave pending messages alone",
  "A complete sentence gives the same result whatever was parsed before it on the same parser, and neither it nor any sentence that is rejected with an error changes what a pending fragment, GSV group or type 24 part later produces (a rejected sentence that is itself the missing fragment of a pending message is left out).",
  ["histories"],"every kind of self-contained or rejected sentence between every kind of pending message and its completion",
  "The tests never interleave different kinds of sentences.",
  [LIB,"src/gnss/gsv.rs","src/ais/vdm_t24.rs"],[("shared stores","src/lib.rs NmeaParser")],ST)
p("C25","Short payloads read as zero-padded",
  "For every supported AIS message type, a payload that ends early decodes exactly like the same payload extended with zero bits ('0' characters), and bits beyond the end of the message's defined layout do not change any field. The result never depends on anything but the payload bits.",
  ["inputs"],"every payload length up to the stated bound with all bits symbolic",
  "All sample payloads have one length per message type.",
  [UT,"src/ais/*.rs"],[("bounds-checked bit extraction","src/util.rs pick_u64, pick_i64, pick_string")])
p("C26","Positions through the LatLon trait",
  "For every result that carries a position (vessel dynamic data, base station reports, search and rescue aircraft reports, aid-to-navigation reports, GGA, RMC and GLL data) the LatLon methods latitude() and longitude() return exactly the latitude and longitude of the result, including None when they are not available; a message without position gives None.",
  ["inputs"],"all payload bits and all digits of the position fields",
  "No test calls these methods.",
  ["src/lib.rs","src/ais/mod.rs","src/ais/*.rs","src/gnss/*.rs"],[("accessor methods","impl LatLon for each result type")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
