#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts is this table)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Parsing an RFC 5424 message always ends in a message or an error, never a panic",
 "For every byte sequence and every combination of the best-effort and compliant-message options, parsing an RFC 5424 message terminates without panicking and returns either a message and no error, or an error; it never returns neither. Without best effort an error is never accompanied by a message; with best effort the accompanying message is present exactly when a complete priority (0-191) and version (1-999) were read, and it is then always valid.",
 ["inputs","configurations"],"every byte sequence up to the stated length x {best effort on/off} x {compliant MSG on/off}",
 "The tests run some 130 fixed inputs through a machine of more than 600 states; a state with a missing error action, an index one past the end or a message without version shows only on inputs that reach it.",
 ["rfc5424/machine.go","rfc5424/machine.go.rl","rfc5424/parser.go","rfc5424/syslog_message.go"],
 [("generated FSM and its error actions","rfc5424/machine.go Parse"),("minimality test","rfc5424/syslog_message.go minimal"),("parser wrapper","rfc5424/parser.go Parse")],
 ["(*rfc5424.parser).Parse return values"])
p("C02","The RFC 5424 parser accepts exactly the RFC 5424 grammar",
 "A byte sequence is accepted without error if and only if it is <PRI>VERSION SP TIMESTAMP SP HOSTNAME SP APP-NAME SP PROCID SP MSGID SP STRUCTURED-DATA [SP MSG] with the field alphabets and length limits of RFC 5424 (priority 0-191 without leading zeros, version 1-999, hostname 255, app-name 48, procid 128, msgid 32, structured-data names 32 printable characters, RFC 3339 timestamp with at most 6 fraction digits denoting a real date, UTF-8 parameter values in which quote, backslash and closing bracket are escaped, no repeated element id). With the compliant-message option a message starting with a byte-order mark must in addition be valid UTF-8; without it any octets are allowed.",
 ["inputs","configurations"],"every byte sequence up to the stated length, both message modes",
 "A test table can hold a few members and non-members of the language; whether one transition of the generated machine accepts one byte too many or a field one octet too long needs every byte at every state.",
 ["rfc5424/machine.go","rfc5424/machine.go.rl","common/common.rl"],
 [("generated FSM transitions","rfc5424/machine.go Parse"),("shared grammar definitions","common/common.rl"),("calendar check of the timestamp","rfc5424/machine.go set_timestamp action")],
 ["error == nil on (*rfc5424.parser).Parse"])
p("C03","Accepted RFC 5424 messages deliver every header field and MSG verbatim",
 "For every accepted RFC 5424 input the returned priority and version are the numbers written in it, and hostname, app-name, procid, msgid and message are exactly the octets of their field; a '-' header field and an empty message are reported as absent, and nothing else is. The timestamp is the instant and offset written in the field, and absent for '-'.",
 ["inputs"],"every accepted byte sequence up to the stated length",
 "Fields are cut out of the input by two cursors kept across some 600 states; tests compare fixed messages, so an off-by-one or a stale cursor on one particular path (e.g. one field length) goes unseen.",
 ["rfc5424/machine.go","rfc5424/syslog_message.go","common/functions.go"],
 [("mark / set_* actions","rfc5424/machine.go Parse"),("digits to number","common/functions.go UnsafeUTF8DecimalCodePointsToInt"),("export of collected fields","rfc5424/syslog_message.go export")],
 ["fields of *rfc5424.SyslogMessage"])
p("C04","Structured data is delivered complete, unescaped and unmixed",
 "For every accepted RFC 5424 input the returned structured data has exactly the element ids written in the input, each with exactly the parameters written in that element (the last one when a name is repeated), and every parameter value equals the written value with each backslash that escapes a quote, backslash or closing bracket removed and nothing else changed. Inputs with a repeated element id are rejected, and '-' means no structured data.",
 ["inputs"],"every structured-data section up to the stated length and number of elements, and longer ones by template",
 "Escapes, elements and parameters combine freely; the tests try a handful of combinations, with at most a few escapes at fixed positions.",
 ["rfc5424/machine.go","common/functions.go"],
 [("set_id / set_paramname / set_paramvalue / add_slash actions","rfc5424/machine.go Parse"),("backslash removal","common/functions.go RemoveBytes")],
 ["StructuredData of *rfc5424.SyslogMessage"])
p("C05","RFC 5424 errors name the first offending byte and the field it is in",
 "When parsing an RFC 5424 input fails for a syntax reason, the column in the error is the index of the first byte that no valid message could have there after the bytes before it, or the input length when the input is a proper prefix of valid messages. The error text is that of the field in which the parser stopped, whatever the input.",
 ["inputs","configurations"],"every rejected byte sequence up to the stated length",
 "Error columns are asserted for about a hundred inputs; the statement is about every byte at every state.",
 ["rfc5424/machine.go","rfc5424/machine.go.rl"],
 [("err_* actions","rfc5424/machine.go Parse")],["error text of (*rfc5424.parser).Parse"])
p("C06","Best effort returns strictly more, and only what was already parsed",
 "For every input, parsing with and without best effort gives the same error; when there is none both return the same message. When there is an error the best-effort message carries exactly the fields that were completely read before the reported column (priority and version; the timestamp once its last octet is read; other header fields once the space after them is read; the elements whose id is complete, with those of their parameters after which a space or closing bracket was read; the message text up to the offending byte) and no others.",
 ["inputs","configurations"],"every byte sequence up to the stated length, parsed under both modes",
 "It relates two runs on the same arbitrary input and speaks about every stopping point; tests fix the partial result for some stopping points.",
 ["rfc5424/machine.go","rfc5424/parser.go","rfc5424/syslog_message.go"],
 [("error actions and partial export","rfc5424/machine.go Parse"),("minimality","rfc5424/syslog_message.go minimal/export")],["(message, error) of both modes"])
p("C07","A parse result depends only on the input and options, not on earlier parses",
 "For both message formats, parsing an input with a parser that has been used before, with any earlier inputs whatever they left behind, returns the same message and error as a freshly created parser with the same options. Parsing never modifies the caller's input, and a returned message never changes when the caller later overwrites the input or parses something else.",
 ["histories","inputs"],"every earlier history (arbitrary leftover parser state) x every input up to the stated length",
 "Histories of earlier inputs are unbounded; tests reuse a parser over one fixed list of inputs in one order.",
 ["rfc5424/machine.go","rfc3164/machine.go","rfc5424/parser.go","rfc3164/parser.go","common/functions.go"],
 [("reset of the machine at the start of Parse","rfc5424/machine.go, rfc3164/machine.go Parse"),("copies made of the input text","rfc5424/machine.go set_* actions; common RemoveBytes")],
 ["return values; caller's buffer"],state=[{"name":"machine fields","meaning":"cursors and leftovers kept between parses","where":"rfc5424/machine.go, rfc3164/machine.go"}])
p("C08","Parsing an RFC 3164 message always ends in a message or an error, never a panic",
 "For every byte sequence and every combination of options, parsing an RFC 3164 message terminates without panicking and returns either a message and no error, or an error; it never returns neither. Without best effort an error is never accompanied by a message; with best effort the accompanying message is present exactly when a complete priority in 0-191 was read, and every error names the column of the first byte that made the input invalid, or the input length when it is cut short. The partial message has the priority, the timestamp and the hostname where each was read together with the space after it, and the tag and content once the colon and space and one octet of the message after them were read.",
 ["inputs","configurations"],"every byte sequence up to the stated length x all option combinations",
 "The RFC 3164 tests contain valid messages only; not one rejected input is exercised outside one best-effort example.",
 ["rfc3164/machine.go","rfc3164/machine.go.rl","rfc3164/parser.go","rfc3164/syslog_message.go"],
 [("generated FSM and its error actions","rfc3164/machine.go Parse"),("minimality","rfc3164/syslog_message.go")],["(*rfc3164.parser).Parse return values"])
p("C09","RFC 3164 messages are accepted per the documented grammar and lose nothing",
 "An input is accepted if and only if it is <PRI>TIMESTAMP SP HOSTNAME SP MSG, with a priority of 0-191, a 'Mmm dd hh:mm:ss' timestamp denoting a real day (or an RFC 3339 timestamp without fraction when that option is on), a hostname of 1-255 printable characters and a non-empty MSG of printable or 8-bit characters. The fields are delivered verbatim and the message part loses no octet: it is delivered whole as the message, or, where it begins with a tag of 1-32 characters with an optional bracketed content followed by ': ', the tag, the content and the rest are delivered as app-name, procid and message (a hostname, tag or content that is '-' and an empty content are reported as absent).",
 ["inputs","configurations"],"every byte sequence up to the stated length, RFC 3339 option on and off",
 "Eight accepted inputs are tested; tag, content and message alternatives overlap byte by byte and only all inputs settle which alternative's cursors are used.",
 ["rfc3164/machine.go","rfc3164/machine.go.rl","rfc3164/syslog_message.go"],
 [("tag/content/message alternatives","rfc3164/machine.go.rl msg"),("export","rfc3164/syslog_message.go export")],["fields of *rfc3164.SyslogMessage"])
p("C10","RFC 3164 timestamps honour the year, timezone and RFC 3339 options",
 "For every accepted RFC 3164 input the month, day and time of the message are those written; the year is the configured one (0 when none is configured), February 29 in a year without one becomes March 1; the written time is interpreted in the configured locale timezone (UTC when none), and the result is expressed in the configured output timezone. With the RFC 3339 option an RFC 3339 timestamp is taken as written, whatever the other options, and 'Mmm dd' timestamps are still accepted.",
 ["inputs","configurations"],"every timestamp accepted by the grammar x every combination of the four options, arbitrary years",
 "Options multiply with dates; the tests pin a few fixed dates with one or two options.",
 ["rfc3164/machine.go","rfc3164/options.go","rfc3164/year.go"],
 [("set_timestamp / set_rfc3339 actions","rfc3164/machine.go"),("options","rfc3164/options.go, year.go")],["Timestamp of *rfc3164.SyslogMessage"])
p("C11","Builder setters store valid values and ignore invalid ones",
 "Starting from any message, setting the priority, version, hostname, app-name, procid, msgid, element id or message stores exactly the given value when it satisfies the RFC 5424 grammar for that field (a '-' or empty value sets nothing), and otherwise leaves the message unchanged. Setting a timestamp stores the instant and offset of the RFC 3339 text the value begins with. Setting a parameter with a valid element id, name and escaped value adds exactly that unescaped value under that name and element, and adds the element where it is missing; a parameter that is already there keeps its value; no setter alters any other field, element or parameter.",
 ["inputs","histories"],"every argument string up to the stated length (length limits included), from an arbitrary earlier message",
 "Setters are exercised with a few valid and invalid constants each, one at a time; the claim is over every value and earlier state.",
 ["rfc5424/builder.go","rfc5424/builder.go.rl","rfc5424/syslog_message.go"],
 [("generated builder FSM","rfc5424/builder.go set"),("range checks","common/functions.go"),("parameter protocol","rfc5424/builder.go SetParameter")],["fields of the built message"])
p("C12","Serialising a message and parsing it back gives the same message",
 "For every message that is valid and whose fields satisfy the RFC 5424 grammar, serialising succeeds, the text is accepted by the parser, and the parsed message has the same priority, version, timestamp instant and offset, hostname, app-name, procid, msgid, structured data (including non-ASCII and escaped characters; a set without elements counts as absent) and message. For every accepted input, parsing, serialising and parsing again gives the same message.",
 ["inputs"],"every field content up to the stated lengths, every combination of present and absent fields",
 "One chain of fixed messages is round-tripped by the tests, with ASCII parameter values only.",
 ["rfc5424/builder.go","rfc5424/machine.go","common/functions.go"],
 [("String","rfc5424/builder.go"),("escaping and unescaping","common/functions.go EscapeBytes, RemoveBytes")],["String(), Parse()"])
p("C13","Serialisation is deterministic and refuses invalid messages",
 "A message without a priority in 0-191 or a version in 1-999 is not valid and serialises to an error and no text; any other message serialises without error. Serialising the same message gives the same text every time, whatever order its elements and parameters were set in: elements and parameters appear sorted.",
 ["inputs","histories"],"every priority, version and field presence; every iteration order of the element and parameter maps",
 "Map iteration order is chosen at random by the runtime and cannot be enumerated by running a test.",
 ["rfc5424/builder.go","rfc5424/syslog_message.go","syslog.go","common/functions.go"],
 [("validity","rfc5424/syslog_message.go Valid, syslog.go Valid"),("sorting","rfc5424/builder.go String")],["String(), Valid()"])
p("C14","Octet-counted streams deliver exactly the framed messages, however they are read",
 "For every stream of well-formed octet-counted frames, each frame's body of exactly the announced number of octets is parsed and delivered once, in order, and the stream ends without any further result exactly at end of input after a frame (without best effort at the first frame that is no RFC 5424 message, with its error alone). A frame is its length in decimal without leading zeros, one space, and that many octets of which the first is '<'. The results do not depend on how the reader splits the stream into reads.",
 ["inputs","schedules","configurations"],"every stream up to the stated length with symbolic counts and bodies x every split into reads x best effort on/off",
 "Tests feed whole strings through one reader, so no frame ever straddles two reads, and counts are fixed.",
 ["octetcounting/parser.go","octetcounting/scanner.go"],
 [("token loop","octetcounting/parser.go run"),("length and body scanning","octetcounting/scanner.go")],["results passed to the listener; bytes handed to the message parser"])
p("C15","Malformed octet-counted streams end in one error, limits are enforced",
 "Whatever bytes a stream contains, octet-counted parsing terminates without panicking, and unless every frame is well formed and complete, and there is one, the last result carries an error and nothing is delivered after it; a framing error stops the parsing. A frame announcing more than the configured maximum message length is never parsed and never delivered, and a truncated last frame is delivered only with best effort and only together with an error.",
 ["inputs","configurations","fault_sequences"],"every byte stream up to the stated length, every maximum length in range, reader failing at any point",
 "Tests cover about ten malformed streams; counts that overflow, NUL bytes, signs, or failures at arbitrary offsets are not among them.",
 ["octetcounting/parser.go","octetcounting/scanner.go"],
 [("length guard","octetcounting/parser.go run"),("token classes","octetcounting/scanner.go Scan")],["results passed to the listener"])
p("C16","Non-transparent framing delivers every delimited message once and in order",
 "For a stream in which every message starts with '<' and is terminated by the configured trailer (LF or NUL), each message without its trailer is parsed and delivered exactly once, in order; a trailer not followed by '<' belongs to the message. The results do not depend on how the reader splits the stream into reads, nor on what the parser was used for before.",
 ["inputs","schedules","histories","configurations"],"every stream up to the stated length x both trailers x every split into reads x arbitrary earlier use",
 "Tests feed five whole strings through fresh parsers.",
 ["nontransparent/parser.go","nontransparent/parser.go.rl"],
 [("framing FSM","nontransparent/parser.go Exec"),("candidate hand-over","nontransparent/parser.go process, OnCompletion")],["results passed to the listener; bytes handed to the message parser"])
p("C17","Non-transparent streams that end early or fail still report what they hold",
 "Whatever bytes a stream contains and wherever the reader stops or fails, non-transparent parsing terminates without panicking; text after the last trailer is parsed as a message of its own and delivered as the last result, always with an error. A stream that does not start with '<' delivers nothing else, and an empty one nothing at all. No result carries neither a message nor an error.",
 ["inputs","fault_sequences"],"every byte stream up to the stated length, reader ending or failing at any offset",
 "One unterminated stream per trailer is tested, and no failing reader.",
 ["nontransparent/parser.go"],
 [("read error hand-over","nontransparent/parser.go OnErr, OnCompletion")],["results passed to the listener"])
p("C18","Concurrent use does not mix messages",
 "Goroutines parsing with the same message parser at the same time, goroutines using different message or stream parsers, and goroutines building or serialising different messages each get the result they would get alone, under every interleaving.",
 ["schedules","inputs"],"every placement of one goroutine's complete call inside another's, at every shared-memory access, with arbitrary inputs up to the stated length",
 "An interleaving that switches between two particular accesses is not under a test's control.",
 ["rfc5424/parser.go","rfc3164/parser.go","rfc5424/builder.go"],
 [("mutex","rfc5424/parser.go, rfc3164/parser.go Parse"),("state of the builder","rfc5424/builder.go SetParameter")],["return values; built messages"])
p("C19","Priority, facility and severity always agree, and each has its description",
 "For every priority value p, a parsed or built message has facility p div 8 and severity p mod 8, and for every valid priority the facility message and keyword and the severity message, level and short level are the ones syslog defines for that code. Absent facility or severity gives absent descriptions.",
 ["inputs"],"all 256 priority values, all 24 facilities and 8 severities",
 "Tests look at three priorities.",
 ["syslog.go","common/facility.go","common/severity.go"],
 [("ComputeFromPriority and describers","syslog.go"),("tables","common/facility.go, common/severity.go")],["Base accessors"])
p("C20","Trailer types convert to and from text without loss",
 "Every trailer type that has a text form round-trips through its text and TOML forms and has its byte, the text is accepted in any letter case and with matching single or double quotes, and every other text or value is refused with an error. An unknown trailer passed as an option leaves the previous trailer in force.",
 ["inputs","configurations"],"every text up to the stated length and every integer trailer value",
 "Tests try the documented spellings only.",
 ["nontransparent/trailer_type.go","nontransparent/parser.go"],
 [("conversions","nontransparent/trailer_type.go"),("option","nontransparent/parser.go WithTrailer")],["returned values and errors"])
p("C21","Stream parsers parse each frame like the message parser with the same mode",
 "Each result a stream parser emits for a frame is exactly what the RFC 5424 message parser returns for that frame's octets under the stream parser's best-effort setting, except that a truncation or read error replaces a missing error. The order in which options are given does not matter.",
 ["inputs","configurations"],"every frame content up to the stated length, every order of the options",
 "It relates two components on arbitrary frames; tests compare fixed frames with fixed messages.",
 ["octetcounting/parser.go","nontransparent/parser.go","options.go"],
 [("inner parser construction","octetcounting/parser.go, nontransparent/parser.go NewParser"),("generic options","options.go")],["results passed to the listener"])
p("C22","Options mean the same whatever their order, repetition and moment",
 "Every parser reports best effort exactly when it was turned on, whether by option or by method, before or after it was first used, and from then on behaves like a parser created with it. A parser given the same options in another order or repeatedly behaves the same, and of several listeners, maximum lengths, years or timezones the last one given counts, also when it is given by method after an earlier stream. A message parser with and without the mutex wrapper behave the same. A stream parser without a listener reads any stream to its end without failing.",
 ["configurations","histories","inputs"],"every order and repetition listed x best effort on/off x inputs and streams up to the stated length",
 "Tests set each option once, at construction, in one order; that a mode turned on later reaches every part of a parser shows only on the inputs on which the modes differ.",
 ["options.go","rfc5424/options.go","rfc3164/options.go","octetcounting/parser.go","nontransparent/parser.go","rfc5424/machine.go","rfc3164/machine.go"],
 [("generic options","options.go"),("machine options","rfc5424/options.go, rfc3164/options.go"),("best effort handed to the inner parser","octetcounting/parser.go, nontransparent/parser.go WithBestEffort, NewParser")],
 ["HasBestEffort, Parse return values, results passed to the listener"])
p("C23","Escaping, unescaping and number helpers are exact",
 "Escaping a value puts exactly one backslash before each quote, backslash and closing bracket and changes nothing else; removing the bytes at given increasing positions (less an offset) removes exactly those, leaves the data as they were and shares no memory with them, so that removing the added backslashes restores the value. A series of decimal digits becomes the number it denotes. Priorities are valid from 0 to 191 and versions from 1 to 999, and a range includes both its ends.",
 ["inputs"],"every value, set of positions, offset and series of digits up to the stated lengths; all priorities, versions and ranges",
 "The helpers are tested with one or two constants each.",
 ["common/functions.go"],
 [("EscapeBytes, RemoveBytes","common/functions.go"),("UnsafeUTF8DecimalCodePointsToInt","common/functions.go"),("InBetween, ValidPriority, ValidVersion","common/functions.go")],
 ["return values; the caller's data"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
