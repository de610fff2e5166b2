#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))
H, M, R, S = ("src/pynmeagps/" + x for x in ("nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"))
T = "src/pynmeagps/nmeatypes_get.py"

prop("C01", "Checksum gate accepts exactly the sentences whose XOR checksum matches",
 "For every sentence, the checksum is the XOR of all characters between '$' and '*', written as two upper-case hex digits; the checksum and the sentence built by the library carry exactly that value. "
 "With VALCKSUM set, parse() rejects (NMEAParseError) every sentence whose checksum field differs from it (letter case of the hex digits aside) and never rejects a matching one on checksum grounds; in particular replacing any one character of the content or of the checksum field of a valid sentence by another (letter case of the hex digits aside) is never accepted. "
 "With VALCKSUM clear, the checksum never decides acceptance.",
 ["inputs", "configurations"], "every sentence content, every two-character checksum field, every single-character corruption, every validate flag value",
 "Tests try two good and two bad checksums; a wrong nibble, case or early-exit in the XOR shows only for other contents.",
 [H, R, M], [("calc_checksum", H), ("generate_checksum", H), ("NMEAReader.parse", R)], observe=["NMEAReader.parse", "NMEAMessage.checksum", "NMEAMessage.serialize"])

prop("C02", "Parsing any input ends in a message, None or a library error",
 "For every str or bytes input and every message mode and validate flag, parse() either returns an NMEAMessage, returns None, or raises one of the library's own exceptions (NMEAParseError, NMEAMessageError, NMEATypeError, NMEAStreamError); no other exception ever escapes. "
 "In particular missing, empty, over-long or non-numeric fields in any defined message type never escape as IndexError, ValueError, TypeError, UnicodeDecodeError or similar.",
 ["inputs", "configurations"], "every byte string / str, every defined message type with arbitrary field contents and any number of fields, all msgmode and validate values",
 "Tests feed well-formed logs and a handful of malformed lines; the crash inputs are specific (an empty first field, a missing field of one message family).",
 [R, M, H], [("NMEAReader.parse", R), ("NMEAMessage._do_attributes exception mapping", M), ("get_parts exception mapping", H)], observe=["NMEAReader.parse"])

prop("C03", "Parse work is bounded by sentence length, whatever count a field claims",
 "The work done to parse a sentence is bounded by a fixed multiple of the sentence's length (plus the size of its definition): a repeat-count field that announces more groups than the payload holds never makes parsing run on past the end of the payload. "
 "Such a sentence still yields exactly the fields that are present.",
 ["inputs"], "every message type with a count-driven repeating group, every value of the count field (any sign and magnitude up to the stated digits), every number of fields actually present",
 "A test uses counts that match the payload; a hang needs a corrupt or hostile count.",
 [M], [("NMEAMessage._set_attribute_group", M)], observe=["NMEAReader.parse"])

prop("C04", "Every payload field decodes to its defined attribute and type",
 "Parsing a sentence of any defined message type (GET, SET or POLL) gives exactly one attribute per payload field, in payload order, named as in the type's definition, whose value is the field's text (CH/ST/HX/QS/LAD/LND), int(text) (IN), float(text) (DE), the UTC date or time it denotes (DT, DTL, DM, TM) or its position in decimal degrees (LA, LN), numeric fields left as '' when empty and dates, times and positions given as '' when invalid. "
 "A sentence with fewer fields than the definition yields the attributes of the fields present and nothing else; extra trailing fields are ignored.",
 ["inputs"], "every message definition in every mode, every field text up to the stated lengths, every truncation point",
 "Tests decode one or two samples of some types; most of the ~600 definitions are never decoded and none with arbitrary field contents.",
 [M, T, "src/pynmeagps/nmeatypes_get_prop.py"], [("NMEAMessage._set_attribute*", M), ("NMEAMessage.str2val", M), ("payload dictionaries", T)], observe=["NMEAMessage attributes"])

prop("C05", "Repeating groups yield one numbered attribute per item, none lost or shifted",
 "For a message with a repeating group, item k of the group appears as attributes suffixed _kk (two digits, _01 upwards), for every complete item in the payload: fixed-size groups up to their size, counted groups up to the count given by the named field, indeterminate groups as many complete items as the remaining payload holds. "
 "Fields after the group keep their own attribute, and building the same message from those suffixed keyword arguments reproduces the same payload.",
 ["inputs"], "every message definition with a group, every number of items up to the stated bound (beyond 9 and 99 for the suffix), every field text",
 "Tests use one to four items of GSV/GSA/RTE; counts at 0, 10, 100 and partial items are not reached.",
 [M, H], [("NMEAMessage._set_attribute_group", M), ("NMEAMessage._calc_num_repeats", M), ("groupsize", H)], observe=["NMEAMessage attributes", "NMEAMessage.payload"])

prop("C06", "Serializing a parsed sentence returns the original bytes",
 "For every sentence that parse() accepts with checksum validation, serialize() of the result is the input sentence byte for byte ('$' ... '*hh' CR LF), and talker, msgID, payload and checksum are exactly the input's parts; parsing the same sentence as str or as bytes gives the same result. "
 "This holds for known, proprietary and unknown message types alike.",
 ["inputs"], "every well-formed sentence of any message type, including unknown ones, any field text",
 "Tests compare two messages; types that edit their payload or drop fields are not compared.",
 [M, H, R], [("NMEAMessage.serialize", M), ("get_parts", H), ("NMEAReader.parse", R)], observe=["NMEAMessage.serialize", "NMEAMessage.payload"])

prop("C07", "A generated message serializes to a valid sentence that parses back equal",
 "For every message type and mode that can be built from attribute keywords (all definitions but the PASHR attitude sentence, whose constructor asks for a payload, and two response variants that only parsing selects), building a message from text without ',', '*' and '$', numbers, positions, dates and times gives a sentence with a correct checksum which parse() accepts, and every attribute supplied comes back with the same value: integers, strings and decimals exactly, positions within the format's resolution (5 or 7 decimals of a minute), times within 10 ms (truncated), dates exactly. "
 "Attributes not supplied come back as the type's nominal value; any attribute order gives the same message.",
 ["inputs", "configurations"], "every message definition and mode, every attribute value in the type's range within the stated widths, both precision modes",
 "Tests build about a dozen messages with fixed values.",
 [M, H], [("NMEAMessage._set_attribute_single", M), ("NMEAMessage.val2str / str2val / nomval", M), ("generate_checksum", H)], observe=["NMEAMessage.serialize", "NMEAReader.parse"])

prop("C08", "Hemisphere letters and position signs always agree",
 "In every parsed message each position attribute followed by its hemisphere letter has that hemisphere's sign: negative or zero for S and W, positive or zero for any other letter, with the magnitude given by the numeric field, even if the field itself carries a sign. "
 "In every generated message the hemisphere letter is derived from the sign of the position supplied (S or W exactly for negative values), overriding any letter supplied; direction letters that do not belong to a position never change one.",
 ["inputs"], "every message definition with a position, every position text/value and every hemisphere letter",
 "Tests use RMC/GGA/GLL with consistent letters; other position names, inconsistent signs and extra direction fields are not reached.",
 [M], [("NMEAMessage._set_attribute_single sign override", M)], observe=["NMEAMessage attributes", "NMEAMessage.payload"])

prop("C09", "NMEA position text is well formed, and exact to its resolution",
 "For every position within +-90 / +-180 degrees, the generated text has the fixed (d)ddmm.mmmmm layout (7 decimals in high precision mode), its minutes are below 60, and it denotes the absolute position to within half a unit of the last minute digit; decoding that text returns the position to the same accuracy. "
 "Decoding any well-formed (d)ddmm.m... text gives degrees plus minutes/60 rounded to 10 decimals, and anything else gives ''.",
 ["inputs"], "every double in the ranges, both axes, both precision modes; every well-formed text up to the stated digits",
 "Tests use a dozen values; the failures sit next to whole degrees, where minutes round up to 60.",
 [H], [("ddd2dmm", H), ("dmm2ddd", H)], observe=["ddd2dmm", "dmm2ddd", "NMEAMessage.payload"])

prop("C10", "Degree/minute/second display strings are well formed and reversible",
 "For every position within +-90 / +-180 degrees, latlon2dms gives d°m′s″X and latlon2dmm gives d°m′X with plain decimal numbers, minutes and seconds below 60 and X the hemisphere of the sign; dms2deg of either string returns the position to within the rounding of its last digit. "
 "dms2deg of any well-formed d / d m / d m s string equals degrees + minutes/60 + seconds/3600 with the sign of its hemisphere letter, and a string that is not of this form (empty, no delimiter, a part that is not a plain number, more than three parts, trailing text) raises ValueError.",
 ["inputs"], "every double in the ranges on both axes; every well-formed string up to the stated digits",
 "Tests use a few values, none next to a whole minute or degree and none tiny.",
 [H], [("deg2dms", H), ("deg2dmm", H), ("dms2deg", H), ("latlon2dms / latlon2dmm", H)], observe=["latlon2dms", "latlon2dmm", "dms2deg"])

prop("C11", "NMEA date and time fields convert exactly both ways",
 "Every calendar date from 1969 to 2068 written as ddmmyy or mmddyy (and any date from year 1000 written as ddmmyyyy) and every time of day hhmmss[.s...] (up to six decimals) decodes to exactly that date or time, and re-encodes to the same digits (times to hundredths, truncated). "
 "A text that is not such a date or time (month 13, 30 February, hour 24, minute 60, letters) decodes to '' and never raises; date and time strings (yyyymmdd, yyyy-mm-dd, hh:mm:ss) supplied as keywords encode to a field denoting the same date or time as the equivalent object.",
 ["inputs"], "every text up to the stated length, every date and time",
 "Tests use three dates and two times.",
 [H, M], [("date2utc / date2str", H), ("time2utc / time2str", H), ("NMEAMessage.val2str / str2val", M)], observe=["date2utc", "time2utc", "date2str", "time2str", "NMEAMessage.val2str", "NMEAMessage.str2val"])

prop("C12", "A message is immutable once constructed",
 "After construction, setting or deleting any attribute of a message - payload attribute, internal attribute or new name, any value - raises NMEAMessageError and leaves the message unchanged. "
 "This holds for messages of every kind: parsed, generated, unknown, user-defined.",
 ["inputs", "histories"], "every attribute name and value, any number of attempts, every construction route",
 "One test sets one attribute of one parsed message.",
 [M], [("NMEAMessage.__setattr__", M), ("_immutable flag", M)], observe=["NMEAMessage attributes", "NMEAMessage.serialize"])

prop("C13", "Unknown identities are rejected or kept verbatim, as VALMSGID says",
 "With VALMSGID set, a sentence whose talker is not a recognised talker, or whose message identity has no definition in the requested mode, raises NMEAParseError from parse() (NMEAMessageError from the constructor), and a recognised one is never rejected for its identity. "
 "With VALMSGID clear, an unknown identity is accepted as a NOMINAL message whose attributes field_01, field_02, ... are the payload fields verbatim and in order, and an invalid mode is always rejected.",
 ["inputs", "configurations"], "every talker/identity string up to the stated length, every payload, every mode (any integer) and validate flag",
 "Tests use the identities XXX and UBX08 only.",
 [M, R, "src/pynmeagps/nmeatypes_core.py"], [("NMEAMessage.__init__ validation", M), ("NMEAMessage._get_dict", M), ("NMEAReader.parse", R)], observe=["NMEAReader.parse", "NMEAMessage"])

prop("C14", "The reader returns every sentence in the stream, once, in order, byte exact",
 "Reading any byte stream returns, in stream order and without overlap, raw data that are exact contiguous pieces of the stream, each starting with '$' plus a talker initial and ending at the first LF, and parsed data equal to parsing that piece. "
 "Non-NMEA bytes before, between or after sentences (including stray '$' characters, but not '$' followed by a talker initial, which is a sentence start) never cause a following complete valid sentence to be lost, altered or duplicated, and the iterator ends exactly at end of stream.",
 ["inputs", "histories"], "every byte stream up to the stated length, every interleaving of sentences and arbitrary other bytes",
 "Tests read fixed logs; the loss cases need particular garbage next to a sentence.",
 [R], [("NMEAReader.read", R), ("NMEAReader._read_bytes / _read_line", R)], observe=["NMEAReader.read", "NMEAReader iterator"])

prop("C15", "Error policy: ignore, log or raise, exactly as configured",
 "For every stream, bad data (bad checksum, undecodable field, non-NMEA header when nmeaonly is set, truncated last line) raises with ERR_RAISE, calls the error handler (or logger) exactly once per error and continues with ERR_LOG, and is skipped silently with ERR_IGNORE. "
 "Reading then continues with the next sentence, so with ERR_LOG and ERR_IGNORE the same messages are returned, and no message returned depends on the policy up to the first error.",
 ["inputs", "configurations", "histories"], "every sequence of good and bad sentences and garbage up to the stated length, every policy, nmeaonly and handler setting",
 "Tests run three bad logs under single settings.",
 [R], [("NMEAReader.read error handling", R), ("NMEAReader._do_error", R)], observe=["NMEAReader.read", "errorhandler callback"])

prop("C16", "Socket data is reassembled exactly, however it arrives",
 "Reading a socket through the wrapper gives the bytes sent, in order, with none lost, duplicated or changed, however recv() happens to split them and whatever buffer size is used: read(n) returns exactly the next n bytes once they have arrived, readline() exactly the bytes up to and including the next CR LF. "
 "When the peer closes or times out, read(n) returns nothing and consumes nothing, and bytes that arrive later are still delivered.",
 ["inputs", "schedules", "fault_sequences"], "every byte content, every segmentation into recv results (including failures), every sequence of read/readline calls, up to the stated sizes",
 "Tests use a dummy socket that always returns full 4096-byte buffers.",
 [S], [("SocketWrapper._recv / read / readline", S)], observe=["SocketWrapper.read", "SocketWrapper.readline", "NMEAReader.read"])

prop("C17", "Chunked transfer decoding is independent of segmentation",
 "For every body sent as a chunked stream (any chunk sizes, hex digits in either case, any data bytes including CR LF), the decoded bytes delivered are exactly the body, however the stream is split into recv segments, including splits inside a chunk-size line, inside chunk data or inside the CR LF that ends a chunk. "
 "Nothing is delivered that is not in the body.",
 ["inputs", "schedules"], "every body and chunking up to the stated size, every segmentation point",
 "The test stream is only ever split at 1024-byte boundaries of one fixed content.",
 [S], [("SocketWrapper.dechunk", S), ("SocketWrapper._recv partial handling", S)], state=[("_partial", "undecoded tail carried to the next segment", S)], observe=["SocketWrapper.read", "SocketWrapper.dechunk"])

prop("C18", "UTC <-> week number / time of week conversions are exact inverses",
 "For every UTC instant on or after the epoch of the GNSS time system (any fraction of a millisecond is dropped), utc2wnotow gives a whole week number, 0 <= TOW < 604800000 ms and the leapsecond offset in force, such that epoch + weeks + TOW - leapseconds is that instant exactly, to the millisecond; wnotow2utc maps them back to the same instant (with continuous week numbers, or modular ones within one rollover period). "
 "Timezone-naive input is taken as UTC, and an explicit leapsecond argument is applied exactly; instants inside an inserted leapsecond are outside the claim.",
 ["inputs", "configurations"], "every instant from 1980 to 2100, every GNSS, modular and continuous week numbers",
 "Tests use eight week/TOW pairs far from week ends and leap seconds.",
 [H], [("utc2wnotow", H), ("wnotow2utc", H)], observe=["utc2wnotow", "wnotow2utc"])

prop("C19", "Leapsecond offset follows the published table at every instant",
 "For every UTC datetime (naive meaning UTC, or in any timezone), leapsecond() is the number of leap seconds inserted between the GNSS system's reference epoch and that instant, changing by exactly one at each published insertion instant from 1972 to 2017 and constant between; before 1972 it is 0. "
 "GPS, Galileo, QZSS and NavIC share the GPS offset and BeiDou differs from it by the constant 14 s.",
 ["inputs", "configurations"], "every datetime 1900-2100 to the microsecond, every GNSS",
 "Tests use six dates.",
 [H], [("leapsecond", H), ("LEAPSECONDS table", H)], observe=["leapsecond"])

prop("C20", "repr() of a message re-creates an equal message",
 "For every parsed or generated message without user-defined types, and whose checksum is written in the canonical two upper-case hex digits, evaluating repr(msg) gives a message with the same identity, mode, payload and serialized bytes (and, for parsed messages, the same attributes), whatever characters its talker, identity and fields contain.",
 ["inputs"], "every message type and unknown identity, any field text (quotes and backslashes included)",
 "Tests evaluate the repr of two messages.",
 [M], [("NMEAMessage.__repr__", M)], observe=["repr", "NMEAMessage"])

prop("C21", "Proprietary families select the definition that fits the payload",
 "A proprietary message whose family identifies the message by its first field (u-blox, Trimble, Septentrio, Fugro ...) is decoded by the definition of family + first field and reports that as its identity; unknown first fields count as unknown identities (nominal fields, or refused when identities are validated). "
 "For messages defined in several variants (Quectel PQTM/PSTM), a payload shaped like one variant, or the keyword set of one variant (where keywords tell it from the others), is encoded and decoded by that variant with every field exposed, and one-field OK / two-field ERROR responses to Quectel commands are decoded as ACK / NAK.",
 ["inputs"], "every variant of every multi-variant message in every mode; every first-field text and every field text",
 "Tests pin single samples of each variant; fields are never varied.",
 [M, "src/pynmeagps/nmeatypes_get_prop.py"], [("NMEAMessage._get_dict / _get_dict_prop / _get_dict_qtm*", M), ("identity", M)], observe=["NMEAMessage.identity", "NMEAMessage attributes"])

prop("C22", "Great-circle helpers stay in range for every pair of positions",
 "For every pair of positions within +-90 / +-180 degrees, haversine never raises and lies in [0, pi*radius], bearing lies in [0, 360), planar and area are never negative; coincident positions have zero distance. "
 "haversine, area and planar-at-equal-latitude do not depend on the order of the two positions. Along a meridian or the equator haversine and planar give radius times the angle between the positions, area gives zero, and from the equator bearing points due north / south, due east / west.",
 ["inputs"], "every pair of positions",
 "Tests use a few well-separated pairs; identical and antipodal points are not tried.",
 [H], [("haversine", H), ("bearing", H), ("planar", H), ("area", H)], observe=["haversine", "bearing", "planar", "area"])

prop("C23", "ISO 6709, hex and speed formatters are faithful",
 "llh2iso6709 renders every position and altitude as exactly one sign plus a plain decimal magnitude per component, each denoting the value supplied; hex2str renders every non-negative integer as its upper-case hex digits padded with zeros to at least the width asked; knots2spd scales any speed by the constant of the named unit in any letter case and rejects any other unit with KeyError.",
 ["inputs"], "every value / width / unit name within the stated bounds",
 "Tests use two positions (both with positive altitude), four hex values and four speeds of 1 knot.",
 [H], [("llh2iso6709", H), ("hex2str", H), ("knots2spd", H)], observe=["llh2iso6709", "hex2str", "knots2spd"])

prop("C24", "User-defined message definitions supplement and never replace the built-in ones",
 "For every user-defined dictionary of scalar or grouped fields, a sentence with a user-defined identity that is not built in decodes by that dictionary with the same typing rules as built-in types, and a message generated from keywords with it serializes to a sentence that parses back equal with it. "
 "Identities that are built in decode by the built-in definition, and sentences of identities in neither are unknown; passing a dictionary never changes how any other message parses.",
 ["inputs", "programs"], "every identity string, every assignment of field types to a user definition up to the stated size, every field text",
 "One test uses one three-field definition.",
 [M], [("NMEAMessage.__init__ userdefined", M), ("NMEAMessage._get_dict", M)], observe=["NMEAReader.parse", "NMEAMessage attributes"])

prop("C25", "ECEF and geodetic coordinates convert back and forth",
 "For every geodetic position (|lat| <= 90, any longitude, height -10 km to 40000 km), llh2ecef gives the Cartesian coordinates of that position (foot of the normal on the ellipsoid plus height along it) to 1 mm, and ecef2llh(llh2ecef(p)) returns p: latitude to 1e-9 degrees, height to 1 mm, and longitude to 1e-9 degrees away from the poles; likewise with the axis and flattening of other reference ellipsoids. "
 "Every ECEF position from 40 km below the surface to 40000 km converts to geodetic coordinates and back to within 1 mm; ecef2llh raises for no finite position, and returns the nominal (0, 0, -1e7) within 90 km of the earth's centre.",
 ["inputs"], "every position: all reals within the stated ranges", "Tests use five positions to 2 decimals.", [H], [("ecef2llh", H), ("llh2ecef", H)], observe=["ecef2llh", "llh2ecef"])
prop("C26", "Compressed chunk data is decompressed exactly",
 "For every body sent as gzip-, zlib- or deflate-compressed chunks, the delivered bytes are the uncompressed body; a chunk that does not decompress is logged and never stops the stream.",
 ["inputs"], "every body, every encoding flag", "No test uses a compressed stream.", [S], [("SocketWrapper.dechunk", S)], observe=["SocketWrapper.read"])
prop("C27", "Autoroll resolves modular week numbers to the latest date not after now",
 "With autoroll, for every current time, time system, week number and time of week, wnotow2utc returns the latest of the dates epoch + (week number + n rollovers) weeks + time of week - leapseconds (n = 0, 1, 2 ...) which is not after the current time, and the first of them when all are later; "
 "the leapsecond offset is the one in force at that date, or the one passed explicitly.",
 ["inputs"], "every current time, week number, time of week, time system, explicit or derived offset",
 "Tests pin two week numbers against the clock of the day they run.",
 [H], [("wnotow2utc autoroll", H)], observe=["wnotow2utc"])

prop("C28", "str() shows the identity and every attribute, msgdesc the listed description",
 "str() of a message is '<NMEA(' + identity, ', NOMINAL' when the message type is not recognised and no user definition applies, then ', name=value' for every attribute of the payload (group items with their suffix) in payload order with exactly its current value, then ')>'; "
 "%s and format give the same text. msgdesc() returns the listed description for every message identity listed in NMEA_MSGIDS or NMEA_MSGIDS_PROP, and 'Unknown msgID <identity>' for any other text.",
 ["inputs"], "every defined message in every mode, parsed or generated, with any field text, count, truncation; unknown and user-defined messages; every text given to msgdesc",
 "Tests compare the text of a few sample messages.",
 [M, H], [("NMEAMessage.__str__", M), ("NMEAMessage.identity", M), ("msgdesc", H)], observe=["NMEAMessage.__str__", "msgdesc"])
prop("C29", "Results depend on the arguments alone, never on earlier calls or other objects",
 "Parsing, building, printing and serializing a message, every helper function, and each reader or socket wrapper give the same result from a fresh start as after any history of other calls, including failed ones: nothing of an earlier message, mode, validation flag, user-defined dictionary, reader or socket shows in a later or concurrent-in-turn one. "
 "No call changes an argument it was given (payload lists, user-defined dictionaries), an earlier message, or the library's definition tables.",
 ["histories", "inputs"], "every defined message in every mode, every helper, histories mixing other field values, item counts, modes, failures, user dictionaries and unknown types; two readers and two sockets used in turn",
 "Tests run each call once per process state; state that leaks through a shared default, a cache or a class attribute shows only for particular pairs of calls.",
 [M, R, S, H], [("NMEAMessage.__init__", M), ("NMEAMessage._do_attributes", M), ("NMEAReader.parse", R), ("SocketWrapper", S), ("payload dictionaries", T)], observe=["NMEAMessage", "NMEAReader.parse", "NMEAReader.read", "SocketWrapper.read"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
