P("P01", "Calendar arithmetic on date-times is the Gregorian calendar's",
  "For every valid date and time from 1753 on, the day of the week, day of the year, ISO week number and seconds since "
  "1970 are those of the proleptic Gregorian calendar. Adding or subtracting any number of years, months, days, hours, "
  "minutes or seconds, moving to the nth weekday, month day, year day or ISO week, and the normalisation behind it give the "
  "calendar's answer, carrying over month, year, century and leap-day boundaries in both directions. Converting a date to "
  "its instant and back loses nothing.",
  ["inputs"],
  "every day of a 400-year Gregorian cycle plus boundary years to 9998; every unit x every offset up to the bounds from "
  "dates around month, leap-day, year and century boundaries; every weekday/ordinal pair",
  "Tests hold a few hand-picked dates near 2011; the property is over all dates, and its errors sit at leap days of "
  "century years, dates before 1970, and week numbers at year ends.",
  [S + "datetime.py", S + "utils.py"],
  [("DateTime.normalise / offset* / set*", S + "datetime.py"), ("leapDaysSince1970, daysUptoMonth, isLeapYear", S + "utils.py")],
  "exhaustive enumeration of dates and operations on the real code against a day-counting reference calendar",
  "Bounded-exhaustive: complete for the stated dates and offsets, compared with an independent day-count calendar; "
  "nothing is said about years before 1753 or after 9998.")

P("P02", "A date-time's answers depend only on its current value, and copies are apart",
  "Whatever sequence of setters, offsets, zone changes, re-parses and queries led to it, a date-time gives for instant, "
  "ordering, hash, offset, text, difference and conversion exactly the answers of a newly built equal value. Changing a "
  "copy never changes the original, nor the original its copy, and reading never changes a value.",
  ["histories"],
  "all sequences of up to 2 of 43 mutating operations x all placements of cache-filling queries between them x 5 kinds of "
  "value (zoned, UTC, floating, fixed-offset zone, date-only); breadth-first over reachable values (3 operations when thorough)",
  "Each test builds a value and asks it one thing; the cached instant and cached zone offset can only go stale when a "
  "query sits between two changes, in an order no test has.",
  [S + "datetime.py", S + "timezone.py"],
  [("posix-time cache invalidated by changed()", S + "datetime.py"), ("zone-offset cache", S + "datetime.py")],
  "exhaustive exploration of operation sequences, differential against a freshly built equal value",
  "Bounded-exhaustive over operation sequences; the oracle is the same code on a fresh value, so an error in both is left to P01, P03 and P06.",
  state=[{"name": "cached instant, cached zone offset", "meaning": "derived values kept until the date-time changes", "where": S + "datetime.py"}])

P("P03", "Date-times compare, hash, subtract and sort by one total order of instants",
  "Two date-times with a zone, a fixed offset or UTC are equal, ordered and hashed by the instant they denote, and their "
  "difference is the exact number of seconds between them, however each is written. Floating and date-only values order by their "
  "reading. Comparison is total and transitive, agrees with ==, !=, <, <=, >, >= and cmp, and sorting and dictionary lookup follow it.",
  ["inputs"],
  "all pairs of instants around zone changes x all written forms (UTC, three zones, fixed offsets, floating, date-only); all "
  "permutations of three values (four when thorough) in sorting",
  "Order laws quantify over pairs and triples of values in mixed forms; tests compare a few pairs in one form.",
  [S + "datetime.py", S + "timezone.py"],
  [("compareDateTime, __eq__/__lt__/__hash__, __sub__", S + "datetime.py"), ("getPosixTime cache", S + "datetime.py")],
  "exhaustive enumeration of pairs and permutations of values, against integer instants",
  "Bounded-exhaustive over the stated instants and forms; the instant of each value is known by construction.")

P("P04", "Dates, times, durations, periods and offsets are written and read exactly",
  "The text, XML and JSON forms of a date, date-time, duration, period or UTC offset are those of the standards, and reading "
  "the text back gives an equal value with the same text. Text that is not such a form, such as one cut short, with characters added or "
  "replaced, or out of range, is refused rather than read as some other value. Reading into a used value replaces all of it.",
  ["inputs"],
  "every day of 12 years, every second count to 200,000, every UTC offset, every duration string to length 6 over its alphabet, "
  "every prefix, extension and one-character change of valid forms",
  "The forms have thousands of boundary cases (zero parts, signs, truncation in the last digit) of which tests hold a few dozen.",
  [S + "datetime.py", S + "duration.py", S + "period.py", S + "utcoffsetvalue.py"],
  [("parseText/generate/writeXML", S + "datetime.py"), ("parseText/generate", S + "duration.py"), ("parseText/generate/writeXML", S + "period.py"),
   ("parse/generate", S + "utcoffsetvalue.py")],
  "exhaustive enumeration of values and of damaged texts, against an independent grammar and formatter",
  "Bounded-exhaustive; leniencies the code documents or the tests require (missing zero parts, basic/extended forms) are part of the reference grammar.")

P("P05", "Periods are half-open intervals and durations signed lengths, whatever their use",
  "A period given by start and end and one given by start and duration are the same interval: containment, overlap, "
  "adjacency, describing text and order follow from start <= t < end. Durations compare, add to and subtract from times by their signed number "
  "of seconds. Asking for the end, duration or text, copying, re-reading or hashing never changes what a later question answers.",
  ["inputs", "histories"],
  "all pairs of periods over five points x both ways of giving them x four kinds of value; all sequences of three uses",
  "Interval laws quantify over relative positions of two periods; the cached end and duration only go wrong in particular orders of use.",
  [S + "period.py", S + "duration.py"],
  [("end/duration derived from each other", S + "period.py"), ("comparison operators", S + "duration.py")],
  "exhaustive enumeration of interval pairs and use sequences, against integer intervals",
  "Bounded-exhaustive over interval positions and sequences of uses.")

P("P06", "A VTIMEZONE gives the offset and name in force, in any order of asking",
  "For any local time or instant on or after its first onset, a time zone's offset and abbreviation are those of the latest "
  "STANDARD/DAYLIGHT onset (DTSTART, RDATE or RRULE occurrence) at or before it, and the transition list for a window is exactly the onsets in it. "
  "Answers do not depend on what was asked before, in what order, or for which years.",
  ["inputs", "histories"],
  "seven zones (north, south, rule changes, UNTIL, COUNT, RDATE, half-hour shift, fixed) x every transition to 2032 and its neighbours "
  "x local/instant x orders of asking; all ordered pairs of 19 queries on a fresh zone",
  "The transition list is expanded lazily and cached per zone object and per year; staleness needs a specific order of queries over specific years.",
  [I + "vtimezone.py", I + "vtimezoneelement.py"],
  [("findTimezoneElement, cached expansion", I + "vtimezone.py"), ("expandBelow/expandAll, cached RRULE expansion", I + "vtimezoneelement.py")],
  "exhaustive enumeration of zones, times and query sequences, against an independent transition-list reference",
  "Bounded-exhaustive; before a zone's first onset nothing is claimed (the standard does not define it).",
  state=[{"name": "cached transition expansion", "meaning": "onsets computed so far", "where": I + "vtimezone.py"}])

P("P07", "Converting between zones, UTC and fixed offsets keeps the instant",
  "Converting a date-time to another zone, to UTC or to a fixed offset leaves the instant it denotes unchanged and gives the "
  "local reading that zone has at that instant, including around daylight changes, and chains of conversions end where a direct one does. "
  "Setting (not adjusting) the zone keeps the reading instead.",
  ["inputs", "histories"],
  "11 forms to 11 forms x every change of six zones and its neighbours, with and without filled caches; all chains of three zones",
  "The errors sit within hours of a transition and in stale caches after a conversion, for particular zone pairs.",
  [S + "datetime.py", S + "timezone.py"],
  [("adjustTimezone / adjustToUTC / setTimezone", S + "datetime.py"), ("timeZoneSecondsOffset", S + "timezone.py")],
  "exhaustive enumeration of conversions and conversion chains, against the transition-list reference",
  "Bounded-exhaustive; floating sources are outside (conversion of a floating time has no defined instant). Ambiguous readings take the offset P06 gives.")

P("P08", "What a TZID means is settled by the zone registry, through any history",
  "A TZID means the zone of the configured standard database if it is there, else the definition first read from a calendar, "
  "and keeps that meaning until the database is cleared or replaced, whatever is read or asked in between. Unknown or unreadable zones are "
  "never invented, and changing a calendar after reading it does not change what its zones mean elsewhere.",
  ["histories"],
  "all sequences of three of 14 operations (four of 16 when thorough) on a database with standard, unreadable and calendar-defined zones",
  "The registry is process-global state; which definition wins depends on the order of reads, lookups and clears.",
  [S + "timezonedb.py", I + "calendar.py"],
  [("TimezoneDatabase.getTimezone/addTimezone/clear", S + "timezonedb.py"), ("VTIMEZONE merging on parse", I + "calendar.py")],
  "exhaustive exploration of registry operation sequences, against an abstract registry model stepped in lock-step",
  "Bounded-exhaustive over operation sequences; every model trace is executed on the real registry.",
  state=[{"name": "TimezoneDatabase", "meaning": "known zones by TZID and the standard directory", "where": S + "timezonedb.py"}])

P("P09", "A TZID never reads a file outside the time zone directory",
  "Whatever TZID appears in a calendar or is asked for, the library reads zone data only from files inside the configured "
  "time zone directory. A TZID naming anything else, by '..', an absolute path or a sibling directory's name, is an unknown zone.",
  ["inputs"],
  "every TZID of up to four path segments over an alphabet with '..', '.', empty and sibling names, absolute and relative; four spellings of the directory",
  "Containment quantifies over every hostile TZID; tests try none.",
  [S + "timezonedb.py"],
  [("cacheTimezone path check", S + "timezonedb.py")],
  "exhaustive enumeration of TZID paths over a scratch directory tree, against normalised-path containment",
  "Bounded-exhaustive over path shapes; symbolic links inside the database directory are taken to be the administrator's.")

P("P10", "Expanding an RRULE gives exactly the instances RFC 5545 defines",
  "For every RRULE, start and window, the instances returned are exactly those the FREQ/INTERVAL/BYxxx/BYSETPOS/COUNT/UNTIL/WKST "
  "parts define, each once and in order, with the start itself counted as the first. Nothing outside the window, after UNTIL or beyond COUNT is returned.",
  ["inputs"],
  "each frequency x intervals x starts x every BY part alone (all values), all pairs and selected triples of BY parts, BYSETPOS, COUNT, UNTIL, WKST; windows to several years",
  "The meaning of a rule depends on combinations of parts with the calendar (leap years, month ends, week numbers); tests give a few dozen rules.",
  [I + "recurrence.py"],
  [("expand / simpleExpand / complexExpand", I + "recurrence.py"), ("generate* and limit* per BY part", I + "recurrence.py")],
  "exhaustive enumeration of rules x starts x windows, against an independent day-scanning reference of RFC 5545 section 3.3.10",
  "Bounded-exhaustive. Outside: BYWEEKNO without BYDAY (an existing test mandates the library's reading), combinations RFC 5545 leaves open, leap seconds.")

P("P11", "An RRULE's answers do not depend on what was asked of it before",
  "Each expansion over a window gives the same result on a rule that was expanded, copied, compared or printed before as on a fresh one, "
  "whatever windows, starts and edits came in between. Changing the rule, the start or a returned list never leaves an old expansion in use.",
  ["histories"],
  "all sequences of three of about 20 operations (windows, starts, edits of each part, copies, in-place changes of returned values) for 8 rules",
  "The cached expansion is invalidated by hand at each setter; a stale one shows only in particular orders.",
  [I + "recurrence.py"],
  [("mCached/mRecurrences, expand", I + "recurrence.py")],
  "exhaustive exploration of operation sequences, each compared with a fresh rule at every step",
  "Bounded-exhaustive over operation sequences; differential against a fresh object, whose answers P10 decides.",
  state=[{"name": "cached expansion", "meaning": "start, upper bound and instances computed so far", "where": I + "recurrence.py"}])

P("P12", "An RRULE reads and writes without changing meaning; invalid ones are refused",
  "Any RRULE text of the RFC 5545 grammar, its parts in any order, is read to a rule that writes text with the same parts, and "
  "reading that (or its jCal or xCal form) again gives an equal rule; rules with other parts are not equal, through any changes by setters. Text outside the grammar (unknown or repeated parts, values out of range, missing FREQ) is refused.",
  ["inputs"],
  "every part with every boundary value, alone and in pairs and in every order of up to four parts; every single corruption of a part; all sequences of 3 (4) of 20 setter calls",
  "Tests sample valid rules; acceptance must hold for every value and refusal for every corruption.",
  [I + "recurrence.py"],
  [("parse, getText, writeXML, parseJSON/writeJSON, ==/hash", I + "recurrence.py")],
  "exhaustive enumeration of rule texts and their corruptions, against an independent grammar",
  "Bounded-exhaustive. UNTIL dates whose day exceeds the month are normalised, as existing tests require.")

P("P13", "A recurrence set is (RRULE union RDATE) minus EXRULE and EXDATE",
  "The instances of a recurrence set over a window are the start, the rules' instances and the RDATEs (dates or periods), "
  "less those of EXRULE and EXDATE, each once and in order, in any order of asking, editing, and copying. Ending the set before a date keeps exactly the earlier instances.",
  ["inputs", "histories"],
  "all subsets of rules, dates, periods, exclusion dates and rules over three kinds of start; all sequences of three of the edits and questions",
  "Set semantics hold over every combination and over cached per-rule expansions; tests expand single rules.",
  [I + "recurrenceset.py", I + "component.py", I + "componentrecur.py"],
  [("expand, excludeFutureRecurrence, editing", I + "recurrenceset.py")],
  "exhaustive enumeration of set memberships and operation sequences, against a set-algebra reference",
  "Bounded-exhaustive. RDATE periods count by overlap with the window; EXDATEs are taken to have the start's value type.",
  state=[{"name": "recurrence set", "meaning": "included and excluded rules, dates and periods", "where": I + "recurrenceset.py"}])

P("P14", "Expanding a calendar lists every event instance once, overrides in place",
  "The instances of a calendar over a window are those of its events and recurrence sets, each with the times its DTSTART, DTEND or DURATION gives, "
  "with an override in place of the instance its RECURRENCE-ID names, and RANGE=THISANDFUTURE or THISANDPRIOR moving the later or earlier ones by as much on the clock. "
  "Each is listed once and in time order, whatever order components were added, removed, renamed or edited in; listing changes nothing.",
  ["inputs", "histories"],
  "all masters (8 lengths/kinds x rules x exclusions) with all overrides of up to two instances, all orders of adding components, all short edit histories",
  "Masters, overrides and indexes interact over orders of parsing and editing that no test walks.",
  [I + "componentrecur.py", I + "componentexpanded.py", I + "calendar.py"],
  [("expandPeriod, mapping of overrides", I + "componentrecur.py"), ("getRecurrenceInstances, removeComponent, changeUID", I + "calendar.py"),
   ("initFromMaster / sort order", I + "componentexpanded.py")],
  "exhaustive enumeration of calendars, windows and edit histories, against an instance-list reference",
  "Bounded-exhaustive. Instances count by overlap with the window (recurring ones without length by their start); several RANGE overrides of both kinds together are outside.",
  state=[{"name": "recurrence instance index", "meaning": "masters by UID, overrides by UID and RECURRENCE-ID", "where": I + "calendar.py"}])

P("P15", "Escaping of text values is exact and reversible, also inside lists",
  "Every text written as an iCalendar or vCard TEXT value escapes backslash, comma, semicolon and newline as the standards say, and reading gives back that text. "
  "The same holds for each element of comma lists and of semicolon-and-comma structures, whose number and order of elements are kept.",
  ["inputs"],
  "all texts to length 5 over an alphabet of escape-relevant characters; all lists and nested lists of short elements; all raw escaped texts",
  "Escaping bugs live in adjacent special characters; tests have a few strings.",
  [S + "utils.py", S + "textvalue.py", S + "multivalue.py", "src/pycalendar/vcard/adrvalue.py", "src/pycalendar/vcard/nvalue.py"],
  [("escapeTextValue, decodeTextValue, writeTextValue", S + "utils.py"), ("parseTextList, parseDoubleNestedList, parseMultiTextList", S + "utils.py")],
  "exhaustive enumeration of texts, lists and raw encodings, against an independent encoder/decoder",
  "Bounded-exhaustive over text lengths and the alphabet.")

P("P16", "Lines fold to 75 octets and unfold to exactly what was folded",
  "Every property line is written in physical lines of at most 75 octets ended by CRLF, continued with one space, never splitting a UTF-8 character, "
  "and unfolding gives the line back. Reading gives the same properties whatever the fold places, the folding white space (space or tab), the line ends (CRLF, LF, CR) and blank lines.",
  ["inputs"],
  "all line lengths over several fold boundaries x all placements of 1-4 octet characters around them; all fold placements and line-end mixes of short texts, from strings and streams",
  "Off-by-one at the fold and characters straddling it need every length and placement.",
  [S + "property.py", S + "utils.py", S + "containerbase.py"],
  [("generateValue folding", S + "property.py"), ("readFoldedLine", S + "utils.py"), ("parse loop", S + "containerbase.py")],
  "exhaustive enumeration of lines and of fold placements, against a reference folder/unfolder",
  "Bounded-exhaustive. A vCard property written folded by its own rule (PHOTO) is exempt on its first line.")

P("P17", "Property parameters are written and read without loss",
  "Parameter names and values of any property, several values of one parameter, and values with any characters (quotes, newlines and carets by RFC 6868; "
  "colons, semicolons, commas by quoting) are read back as they were set, and equal properties stay equal. Any parameter text of the grammar is read as the grammar says.",
  ["inputs"],
  "all parameter values to length 4 over an alphabet of special characters; all lists of values; all raw parameter sections to a length bound",
  "Quoting and caret encoding interact with the parameter and property separators character by character.",
  [S + "parameter.py", S + "property.py", S + "stringutils.py", "src/pycalendar/vcard/property.py"],
  [("decodeValue/encodeValue/generateValue", S + "parameter.py"), ("parseTextParameters", S + "property.py"), ("strduptokenstr", S + "stringutils.py")],
  "exhaustive enumeration of parameter values and raw parameter sections, against a reference grammar",
  "Bounded-exhaustive. The order of one parameter's values is not significant; CR LF and CR in a value are read back as LF (RFC 6868 has one newline).")

P("P18", "Every property keeps its value and type through text, jCal and copying",
  "A property of any known name with any value type it allows, and one of an unknown name with any declared VALUE, is written so that reading the text or the jCal gives "
  "an equal property with the same value, type and parameters. VALUE is written exactly when the type is not the name's default; copies are equal and hash equally.",
  ["inputs"],
  "every registered property name x every value type x boundary values of the type x forms (text, jCal, copy, constructor)",
  "The name/type/value table is large; tests cover chosen rows.",
  [S + "property.py", S + "value.py", S + "multivalue.py", I + "property.py"],
  [("createValue, setupValueParameter, parse/generate/parseJSON/writeJSON", S + "property.py"), ("value type registry", S + "value.py")],
  "exhaustive enumeration of property x type x value, against the registered defaults and reference encodings",
  "Bounded-exhaustive. URIs holding backslashes are outside (the library unescapes them); types the library does not know are compared as text.")

P("P19", "A calendar is written by its content alone, and reads back equal",
  "Writing a calendar as text or jCal and reading it back gives an equal calendar with every component at its level and every property, parameter and value, also those the library does not know. "
  "The text depends only on the content: calendars differing only in the order of components or of differently named properties are equal and written the same. "
  "Calendars differing in any property or component, or in how often it occurs, are not equal.",
  ["inputs"],
  "every property line in every component, all pairs of lines in both orders, all sets of up to 3 (4) of 15 components in all orders, all small nestings, all pairs of one-place variants",
  "Ordering, nesting and equality must hold for every combination of components; tests compare chosen files.",
  [S + "componentbase.py", S + "containerbase.py", I + "calendar.py", I + "component.py"],
  [("generate, sortedComponents, sortedPropertyKeys", S + "componentbase.py"), ("parse, parseJSONData", S + "containerbase.py"), ("compareProperties/compareComponents", S + "componentbase.py")],
  "exhaustive enumeration of component trees and orders, against an independent reader of the written text",
  "Bounded-exhaustive. Components without UID are outside (they have no order of their own); value equality is that of P03, P05 and P12.")

P("P20", "A calendar or card is read completely or refused",
  "Text that is cut short, wrongly nested, without VERSION, or holds lines that are no properties is refused with an error of the library, at whatever line or octet it was damaged; "
  "text that is accepted is read without losing anything. Any damage to a text or jCal is either refused or read as something that is written and read again the same; refused text defines no time zones.",
  ["inputs"],
  "all sequences of up to 5 (6) of 9 structural lines; every cut, dropped, doubled and exchanged line of 5 calendars; every one-octet change; every damaged jCal node; all streams of vCards of up to 4 (5) of 8 lines",
  "Errors in structure show for particular cut places and nestings that tests do not walk.",
  [S + "containerbase.py", I + "calendar.py", S + "property.py", "src/pycalendar/vcard/card.py"],
  [("parse", S + "containerbase.py"), ("parseComponent", I + "calendar.py"), ("parseJSON", S + "componentbase.py")],
  "exhaustive enumeration of line sequences and of damage places, against an independent acceptor",
  "Bounded-exhaustive. Several calendars in one text are read into one; misplaced components raise ValueError; delimiters are read in upper case.")

P("P21", "Parser options change how the suspect data they name is read, nothing else",
  "Conforming calendars and cards are read the same under every setting of the parser options. Suspect data an option names (invalid escapes, blank lines, vCard 2 parameters, over-long or malformed values) "
  "is passed through under ALLOW, left out under IGNORE, corrected under FIX and refused under RAISE, whatever the other options are. After allRaise everything an option can refuse is refused.",
  ["inputs"],
  "all settings of 12 options x 4 states alone, in pairs, and jointly for the options a line depends on; 39 suspect lines; blank lines at every place",
  "Options are tested one at a time with one sample; interactions of two options and leakage to conforming data are not.",
  [S + "parser.py", S + "utils.py", S + "urivalue.py", S + "duration.py", "src/pycalendar/vcard/property.py"],
  [("ParserContext", S + "parser.py"), ("decodeTextValue", S + "utils.py"), ("parseDoubleNestedList", S + "utils.py"), ("parse", I + "requeststatusvalue.py")],
  "exhaustive enumeration of option settings x suspect and conforming texts on the real parser, against an expected reading",
  "Bounded-exhaustive. INVALID_DATETIME_VALUE has no effect; GEO backslashes are always corrected, as the option's comment says; a lone backslash at the end of a text is dropped under every setting.")
P("P22", "The XML (xCal) form holds what the text form holds, as RFC 6321 has it",
  "The XML of a calendar is well-formed and has every component, property, parameter and value that the text has and nothing else, nested the same, each value in the element of its type with its text unchanged. "
  "Writing it does not change the calendar, and a copy or one read from jCal is written the same.",
  ["inputs"],
  "96 property lines in 15 components and the calendar; all pairs (triples) of 15 components x 3 ways to include zones; all pairs (triples) of 18 characters in 6 kinds of value",
  "One small sample is compared in the tests; types, escapes, several values and nested components in XML are not.",
  [S + "xmlutils.py", S + "componentbase.py", S + "property.py", S + "parameter.py", S + "plaintextvalue.py", I + "recurrence.py"],
  [("writeXML", S + "componentbase.py"), ("generateValueXML", S + "property.py"), ("toString", S + "xmlutils.py"), ("writeXML", S + "geovalue.py")],
  "exhaustive enumeration of component trees and values; the XML is parsed by the JDK and compared with one derived independently from the text",
  "Bounded-exhaustive. Parameter values are all text elements (a TODO of the code); types BOOLEAN, TIME and X- are written unknown; CR in values outside.")
P("P23", "A copy is the same as its original and shares nothing with it",
  "A copy of a property, component, calendar or card is written the same, equals its original and gives the same answers, and behaves the same under every later edit. "
  "No edit of the one, of its properties, parameters, values or components, however deep, is ever seen in the other.",
  ["inputs", "history"],
  "74 property lines x every way to change a property, parameter or value x {copy, original}; 19 components x pairs of 26 edits; 6 calendars x pairs of 16 edits; 16 vCard lines",
  "Sharing shows only when a particular inner object is changed after copying; tests compare a fresh copy at most.",
  [S + "componentbase.py", S + "property.py", S + "parameter.py", S + "multivalue.py", I + "componentrecur.py", I + "valarm.py", I + "recurrence.py"],
  [("duplicate", S + "componentbase.py"), ("duplicate", I + "componentrecur.py"), ("duplicate", I + "property.py"), ("duplicate", S + "vcard/property.py")],
  "exhaustive enumeration of edit sequences over {copy, original}, each compared with the same edits on a freshly read object",
  "Bounded-exhaustive. Sequences of two edits. Caches of a time zone that was used and is edited after that are outside.")
P("P24", "After any edits a component answers what its text says",
  "After any sequence of edits of an event, to-do, journal, free-busy, alarm or calendar, its text has exactly the properties and components the edits should have left, "
  "and every question, about times, status, recurrence, occurrences, alarms, instances or keys, is answered as by a new object read from that text. "
  "Removing or setting properties and calling finalise() counts as an edit, and an edit changes only what it is made on.",
  ["history"],
  "9 components x sequences of two of up to 70 edits (a third when quick), 4 alarms x sequences of up to 2 (3) of 24 edits, 3 calendars x sequences of 2 (3) of 22 edits, with expansions between them",
  "Edits keep cached values beside the properties; which of the two goes stale depends on the pair of edits, and tests make none.",
  [I + "component.py", I + "componentrecur.py", I + "vevent.py", I + "vtodo.py", I + "vfreebusy.py", I + "valarm.py", I + "calendar.py", I + "recurrence.py"],
  [("edit*, finalise", I + "componentrecur.py"), ("edit*, finalise", I + "valarm.py"), ("addComponent/removeComponent/changeUID", I + "calendar.py"), ("editStatus/editCompleted", I + "vtodo.py")],
  "exhaustive enumeration of edit sequences against a model of the text's lines, then differential against the re-read object",
  "Bounded-exhaustive over edit sequences. The model states the lines each edit must leave; answers are compared with those of the same code on the re-read text.",
  state=[{"name": "cached start, end, status, trigger, recurrence set, UID indexes", "meaning": "what was read from the properties when last finalised or edited", "where": I + "componentrecur.py, valarm.py, calendar.py"}])

P("P25", "Validation reports exactly the broken constraints and fixes what it says",
  "validate() of a calendar or vCard reports one problem for every broken constraint of its components and properties, none for others, split into fixed and unfixed as documented; without doFix nothing changes. "
  "With doFix it changes only what it reports fixed, leaving a component that reads and validates again with only the unfixed problems. "
  "With doRaise it raises ValidationError exactly when something stays unfixed.",
  ["inputs"],
  "20 kinds of component x 57 properties none to three times, alone and with another; 74 values with an allowed range; relations between start, end, duration, due, rules and STATUS; several broken components; vCards of 10 properties none to twice",
  "Constraints are spread over a class per component with inherited lists; each combination of present and absent properties is another path, and tests have a dozen.",
  [S + "validation.py", S + "validator.py", S + "componentbase.py", S + "containerbase.py", I + "validation.py", I + "vevent.py", I + "vtodo.py", I + "vavailability.py", S + "vcard/card.py"],
  [("validate", S + "containerbase.py"), ("validate", S + "componentbase.py"), ("validate", I + "vevent.py"), ("ICALENDAR_VALUE_CHECKS", I + "validation.py")],
  "exhaustive enumeration of property counts, values and combinations on the real validator, against a table of the RFC's constraints",
  "Bounded-exhaustive over small components. Constraints for polls and availability follow the drafts as implemented; a problem of a property that a fix removes may be reported too.")

P("P26", "Filtered output is the unfiltered output less what the filter leaves out",
  "Writing with a filter, as text, jCal or XML, writes exactly the components and properties the filter names, in the same order and unchanged, at every depth; a property named without value keeps name and parameters only. "
  "The filter accumulates what is added to it, and writing changes neither it nor the calendar.",
  ["inputs"],
  "15 components alone and in pairs x all filters of a grammar to depth 4 x 3 forms; 62 property lines x {out, without value, with value}^3; all pairs of 14 vCard lines; all sequences of up to 4 (5) of 7 calls that set up a filter",
  "The tests never write with a filter.",
  [S + "outputfilter.py", S + "componentbase.py", S + "property.py", S + "vcard/property.py"],
  [("OutputFilter", S + "outputfilter.py"), ("writeComponentsFiltered", S + "componentbase.py"), ("generateFiltered", S + "property.py")],
  "exhaustive enumeration of component trees x filters on the real writers, against the unfiltered output filtered independently",
  "Bounded-exhaustive. A property without value may keep its type name in jCal; an empty components element is ignored.")

P("P27", "A written calendar has the time zones it needs, and means the same alone",
  "Writing a calendar adds, for every zone named by a date-time anywhere in it, exactly the definitions the mode asks for (all, non-standard, none), in text, stream, jCal and XML, keeping those it has and adding none twice; "
  "includeMissingTimezones and stripStandardTimezones do exactly what they say, after any edits. "
  "A calendar written with all its zones, read where no zone is known, has the same instants.",
  ["inputs", "history"],
  "171 places a zone can be named x 4 zones (standard, read, own, unknown) x 3 sets of own definitions x 4 modes x 4 forms; 40 calendars x all sequences of 2 (3) of 18 operations; each place written as text or jCal and read alone",
  "Which zones are written depends on where the zone is named, on what the database knows and on earlier calls; a missing definition shows only on another machine.",
  [I + "calendar.py", I + "component.py", I + "vavailability.py", I + "property.py", S + "timezonedb.py"],
  [("includeMissingTimezones/stripStandardTimezones", I + "calendar.py"), ("getTimezones", I + "component.py"), ("mergeTimezones", S + "timezonedb.py")],
  "exhaustive enumeration of places, definitions, modes and operation sequences on the real code, against a model of the set of definitions",
  "Bounded-exhaustive; zones have a fixed offset, so that definitions are told apart by their instants.",
  state=[{"name": "time zone database", "meaning": "definitions found in files and those read with calendars", "where": S + "timezonedb.py"}])

P("P28", "An instance derived from a recurring component is that instance",
  "deriveComponent() of an instance gives the master's component with DTSTART, the end and RECURRENCE-ID those of the instance, in the master's zone and form, and without recurrence properties. "
  "Adding it to the calendar changes no instance shown; deriving changes neither calendar, master nor the date given, and what is derived shares nothing with them. "
  "The master is the component without RECURRENCE-ID, wherever it stands; without one nothing is derived.",
  ["inputs"],
  "events, to-dos and journals x 4 kinds of time x up to 4 kinds of end x 3 lengths x 5 rules x contents x each instance x forms of RECURRENCE-ID, over a daylight change; pairs of 7 other components before and after the master",
  "No test derives an instance; what goes wrong depends on the kind of component, of end and of zone, and on a daylight change in between.",
  [I + "calendar.py", I + "componentrecur.py", I + "componentexpanded.py", S + "datetime.py"],
  [("deriveComponent/masterComponent", I + "calendar.py"), ("ComponentExpanded", I + "componentexpanded.py")],
  "exhaustive enumeration of masters x instances on the real code, against a model of the derived lines, and the listing before and after",
  "Bounded-exhaustive. An RDATE period's own length is not derived; for a date the single day may be written as DTEND.")

P("P29", "An alarm triggers when its text says, each time once, through saves and edits",
  "An alarm's next trigger is the time its TRIGGER, RELATED, DURATION and REPEAT say, in the zone and form of its component, until each was reported once or is more than a day past; then it is completed. "
  "alarmTriggered() records the trigger reported and gives the next, and saving, reading, copying, editing alarm or component and the passing of time change the answer only as the text does.",
  ["inputs", "history"],
  "4 owners x 4 kinds of time x 8 triggers x 4 repeats x up to 25 current times, fired in turn, saved or copied in between; all sequences of 3 of 13 operations from 2 (3) current times",
  "The tests never ask an alarm for its trigger; what it answers depends on the clock, on what was reported before, and on a daylight change between start and trigger.",
  [I + "valarm.py", S + "datetime.py", S + "duration.py"],
  [("getNextTrigger/alarmTriggered/loadAction", I + "valarm.py")],
  "exhaustive enumeration of alarms, current times and operation sequences on the real code under a controlled clock, against a reference model",
  "Bounded-exhaustive. RELATED=END without an end, alarms without component, and disabled alarms are outside; a floating trigger is compared with the current time as it reads.",
  state=[{"name": "mDoneCount/mLastTrigger/mAlarmStatus", "meaning": "how many triggers were reported, and whether more follow", "where": I + "valarm.py"}])

P("P30", "The busy time of a calendar is that of its events and free-busy entries",
  "At every instant of a window getFreeBusy() lists exactly the kinds of busy time that instances of opaque, timed, not cancelled events (tentative ones as such) and FREEBUSY periods (by FBTYPE) have there, and nothing listed outside it is wrong. "
  "getVFreeBusyFB() adds to a component the same times of events as disjoint ascending periods in UTC, getVFreeBusyList() lists each free-busy component that is busy then. "
  "The answers follow every change of a component, and asking changes nothing.",
  ["inputs", "history"],
  "all ordered pairs (thorough: triples) of 26 events and free-busy components x 9 windows in two zones, each elementary interval compared; all sequences of 3 (4) of 14 operations on a free-busy component",
  "No test asks for free-busy time; the answer merges recurring, overridden, zoned and floating events with stored busy time.",
  [I + "calendar.py", I + "vfreebusy.py", I + "freebusy.py", "src/pycalendar/period.py"],
  [("getFreeBusy/getVFreeBusyFB/getVFreeBusyList", I + "calendar.py"), ("cacheBusyTime", I + "vfreebusy.py")],
  "exhaustive enumeration of calendars, windows and edits on the real code, against a model that decides every elementary interval",
  "Bounded-exhaustive. Floating times are in the zone of the window; overlapping entries of different kinds are listed side by side; FREEBUSY outside DTSTART-DTEND of its component is outside.")

P("P31", "To-dos are listed, ordered and described by status, due date and completion",
  "getVToDos() lists each to-do the filters admit (done more than a day ago or cancelled ones left out on request, due up to a date), getCompletionState() and getStatusText() say what STATUS, due day, COMPLETED and the current day say, "
  "and sort_for_display is a consistent order by status, due date, priority and start. All follow edits, copies, saves and the clock.",
  ["inputs", "history"],
  "7 statuses x 76 due dates x completions, priorities and starts x 3 (5) current times x 16 filters; all pairs of 962 to-dos both ways; all arrangements of 3 (4) of 10; all sequences of 3 (4) of 12 operations",
  "No test asks a to-do for its state; the answers turn on the current day and on days of the month, and a comparison that is inconsistent shows only in some orders.",
  [I + "vtodo.py", I + "calendar.py", I + "componentexpanded.py"],
  [("sort_for_display/getStatusText/getCompletionState/editStatus", I + "vtodo.py"), ("getVToDos", I + "calendar.py")],
  "exhaustive enumeration of to-dos, current times, pairs and edit sequences on the real code under a controlled clock, against a model",
  "Bounded-exhaustive. Days are calendar days as written; the place of to-dos without priority, start or completion time among others is not said, only that the order is consistent.")

P("P32", "What a vCard says is read, made, edited and written alike as text and jCard",
  "Each property of a vCard has through the API the value its text or jCard says, whether read, copied or made from objects, and is written with the same value, type, parameters and group in both forms, those of a name in order. "
  "Setting a part of a name or address changes that part alone, there and in what is written; streams of cards give each card.",
  ["inputs", "history"],
  "32 names x all values of a grammar for 11 kinds of value x 5 sets of parameters x 3 groups, from text, jCard, copy and objects; all arrangements of up to 3 (4) of 13 lines and streams; all sequences of 2 (3) part changes, saves and copies",
  "The tests read few cards and never write jCard with structured values; one form may lose what the other keeps.",
  [S + "vcard/property.py", S + "vcard/card.py", S + "vcard/n.py", S + "vcard/adr.py", S + "vcard/orgvalue.py", S + "property.py", S + "utils.py"],
  [("parseJSON/generateValueJSON", S + "property.py"), ("Property", S + "vcard/property.py"), ("parseMultipleData", S + "vcard/card.py")],
  "exhaustive enumeration of vCard values, properties, cards and edits on the real code in all forms, against an independent encoder",
  "Bounded-exhaustive. AGENT, BOOLEAN and TIME values in jCard are outside; property names become upper case through jCard; an ORG of one component may be given on its own.")

P("P33", "zonal makes of tz source the offsets, names and files that the source says",
  "The transitions and the VTIMEZONE that zonal makes of tz database source (Zone, Rule and Link lines) for a range of years give at every instant of the range the offset, and the name, that zic defines for that source, the VTIMEZONE also when it is read back. "
  "This is so for any form of day and time, whatever the same rules and zones were expanded for before. The files made are exactly those of the zones chosen and of their links, each under its own TZID.",
  ["inputs", "history"],
  "each day form in each month x time forms x offsets from -11 to +13 (26 years), zones of up to four lines over ten line forms and twelve ends, all sequences of 3 (4) expansions, source files with two kinds of noise, and all 447 zones of tz release 2026e",
  "The tests expand one zone over five years; days that an offset moves into another month, changes of line and rule at once and reuse of rules are never met.",
  ["src/zonal/zone.py", "src/zonal/rule.py", "src/zonal/utils.py", "src/zonal/tzconvert.py"],
  [("Zone.expand/vtimezone, ZoneRule.expand", "src/zonal/zone.py"), ("Rule.datetimeForYear/vtimezone", "src/zonal/rule.py"), ("tzconvert", "src/zonal/tzconvert.py")],
  "exhaustive enumeration of zone sources, ranges and sequences of expansions on the real code, against an independent compiler of tz source (checked against the system's compiled zones)",
  "Bounded-exhaustive. Zones start with a plain line, as those of the database do; %z formats and two rules at one instant are outside; Windows aliases cannot be read here (no XML parser in this Jython).")

P("P34", "Dates, times, months and rules are shown, and now and today found, as they are",
  "The text a date, a time with its zone, or a month table is shown as says the very fields of the date and the zone's name or offset then, in each form; the table places each day under its weekday, with the days around it and today marked. "
  "Now and today are those of the clock in the zone asked for. A set of rules is described, and said to be simple or advanced, by the rule parts it has; zones are ordered from west to east.",
  ["inputs"],
  "every day of 15 years (thorough 209), every minute of a day, all offsets by the quarter hour and both names of a zone, in each of 6 date forms x 8 time forms; every month of 13 (93) years x 7 week starts x every day as today; each half hour of 8 days x 5 zones; all choices of 2 (3) rule parts x all sets of 5 other lines; all arrangements of 3 (4) of 10 zones",
  "No test displays a date or asks for today: defects appear on one weekday start, one hour or one zone only.",
  [S + "datetime.py", S + "locale.py", S + "utils.py", S + "timezone.py", I + "recurrence.py", I + "recurrenceset.py", I + "vtimezone.py"],
  [("getLocaleDate/getTime/getNow/getToday", S + "datetime.py"), ("getMonthTable", S + "utils.py"), ("getUIDescription/isAdvancedUI", I + "recurrenceset.py"), ("getTimezoneDescriptor", I + "vtimezone.py")],
  "exhaustive enumeration of dates, times, months, rules and clock readings on the real code under a controlled clock, against an independent calendar",
  "Bounded-exhaustive. The zone of a floating time is not named; days before 1753 are outside; today without a zone is that of the machine.")

P("P35", "Letter case of names and enumerated values makes no difference to what is read",
  "A calendar or card in which any component, property or parameter name, recurrence rule word, or enumerated value is written in another letter case has the same components, values, instances, alarms, busy time, states, validation results and jCal, and the same text but for case.",
  ["inputs"],
  "two calendars with every kind of component and a stream of cards: each of 460 words in lower case (thorough: three forms), each distinct word throughout and all words in three forms (thorough: all pairs of words)",
  "RFC 5545 and 6350 make these case-insensitive; the tests write them all in upper case.",
  [S + "containerbase.py", S + "componentbase.py", S + "property.py", I + "calendar.py", I + "component.py", I + "recurrence.py", I + "componentrecur.py", I + "valarm.py", I + "vfreebusy.py", I + "vtodo.py", I + "vevent.py", S + "vcard/card.py", S + "validation.py"],
  [("parse", I + "calendar.py"), ("parse", S + "containerbase.py"), ("parse", I + "recurrence.py"), ("makeComponent", I + "component.py")],
  "exhaustive enumeration of case variants of documents on the real code, each compared in all its answers with the upper-case original",
  "Bounded-exhaustive over three documents. Letters within date, duration and offset values, media types and TYPE values of cards are kept as they are.")

P("P36", "A floating time is one of the default timezone of the moment, nothing else is",
  "Through any history of setting the default timezone (to UTC, a zone, a fixed offset or none) and of questions and edits, the instant, offset and zone name of a floating date-time are those of its wall clock in the default timezone then, and of any other date-time those of its own zone. "
  "Beside another time a floating one is taken in that one's zone. The default timezone makes no difference to zones, instances, busy time, alarms or text, and a Timezone object says what it is.",
  ["histories"],
  "all sequences of 3 (thorough 4) of 20 operations (8 ways to set the default, 5 questions, 7 edits); 8 x 8 defaults x 5 kinds of time x 25 pairs of times; 5 kinds of event x 6 recurrences x 8 defaults; each month and 5 hours x 8 defaults; all pairs of 7 timezone objects",
  "No test ever sets a default timezone; a cached answer shows only after it is set, asked and set again.",
  [S + "timezone.py", S + "manager.py", S + "datetime.py", S + "timezonedb.py", I + "vtimezone.py", I + "recurrenceset.py"],
  [("setDefaultTimezone", S + "manager.py"), ("timeZoneSecondsOffset/timeZoneDescriptor", S + "timezone.py"), ("getPosixTime/__sub__", S + "datetime.py")],
  "exhaustive enumeration of operation histories on the real code, in lockstep with a reference model of the default timezone and independent zone tables",
  "Bounded-exhaustive. The name of the zone of a floating time while the default is UTC is left open.")

P("P37", "The command line tools print what the data they are given says",
  "tzdump prints every onset of a zone in the years asked for, with its instant and offsets; tzverify reports for two directories of zones exactly the changes of offset one has and the other lacks, and says which zones match or are missing. "
  "validator prints for a file that it cannot be read, its problems, or that there are none, and each control character with its place, and ends accordingly; instances prints all instances of a rule over a hundred years.",
  ["inputs"],
  "10 zones x 8 (36) first years x 6 lengths; all ordered pairs of 18 zones that differ in one thing x 8 ranges x 3 output settings; a calendar and a card with each of 9 changes at each line x 2 line ends x up to 33 control characters; 5 starts x 9 rules",
  "The tools have no tests at all; they are what is used to publish and compare zone data.",
  ["src/zonal/tzdump.py", "src/zonal/tzverify.py", S + "validator.py", S + "instances.py", I + "vtimezoneelement.py"],
  [("compareCalendars", "src/zonal/tzverify.py"), ("getExpandedDates", "src/zonal/tzdump.py"), ("validate", S + "validator.py"), ("instances", S + "instances.py")],
  "exhaustive enumeration of zone data, files and rules, each given to the real command under capture of its output, against independent zone and rule references",
  "Bounded-exhaustive. Changes at the very first day compared may be reported or not. What validator says of readable data is compared with the library's own validation (P25 decides that).")
P("P38", "Properties, parameters and components edited and looked up are those there",
  "After any sequence of additions, removals and copies a component or card has, by any letter case of name, exactly the properties and components put into it and not taken out, in their order; a property likewise its parameters. "
  "Typed questions answer with the value of the first property of the name if it is of that type, else nothing. Two are equal exactly when they hold the same values, in any order and however written.",
  ["histories", "inputs"],
  "6 kinds of component x sequences of up to 3 of 19 operations on properties; 5 kinds x sequences of up to 3 (4) of operations on components; sequences of up to 3 (4) of operations on parameters, names and groups; 4 kinds x 23 typed properties x each after it; equality of all pairs of 133 lines",
  "The tests read and write whole calendars; edits through the component interface are hardly tested.",
  [S + "componentbase.py", S + "property.py", S + "parameter.py", S + "value.py", I + "calendar.py", I + "component.py"],
  [("removeProperty", S + "componentbase.py"), ("removeAllComponent", S + "componentbase.py"), ("loadValueInteger", S + "componentbase.py"), ("replaceParameter", S + "property.py")],
  "explicit enumeration of all operation sequences on the real objects against a list model, each state compared after every operation",
  "Bounded-exhaustive. Removing a property that is not there may raise or do nothing; nothing may change.")


# Files whose code also serves a property, beside those named with it.
IC, VC = S + "icalendar/", S + "vcard/"
for _ids, _files in (
    (("P18", "P17", "P23"), ["datetimevalue.py", "unknownvalue.py", "caladdressvalue.py", "binaryvalue.py", "floatvalue.py",
                             "integervalue.py", "periodvalue.py", "durationvalue.py", "geovalue.py",
                             "icalendar/recurrencevalue.py", "icalendar/requeststatusvalue.py"]),
    (("P18", "P20", "P38"), ["valueutils.py"]),
    (("P22",), ["xmldefinitions.py", "icalendar/xmldefinitions.py", "geovalue.py", "icalendar/requeststatusvalue.py"]),
    (("P20",), ["exceptions.py", "icalendar/exceptions.py"]),
    (("P19", "P25", "P23"), ["icalendar/vunknown.py", "icalendar/vjournal.py", "icalendar/vpoll.py", "icalendar/vvoter.py",
                             "icalendar/vote.py", "icalendar/available.py"]),
    (("P06", "P27"), ["icalendar/vtimezonedaylight.py", "icalendar/vtimezonestandard.py"]),
    (("P18", "P12", "P31"), ["icalendar/definitions.py"]),
    (("P32",), ["vcard/definitions.py", "vcard/validation.py", "vcard/xmldefinitions.py"]),
    (("P25",), ["icalendar/itipdefinitions.py"]),
):
    for _p in ALL:
        if _p["id"] in _ids:
            _p["files"] = _p["files"] + [S + _f for _f in _files if S + _f not in _p["files"]]
