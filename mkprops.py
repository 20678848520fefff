#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing a property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "What Decode returns does not depend on how the stream is delivered",
 "For every byte stream, Decode returns the same outcome - an equal calendar, or failure - however a conforming reader splits the stream into reads: any sequence of chunk sizes, occasional empty reads, end-of-file reported together with the last bytes or after them.",
 ["inputs", "schedules"], "every stream, valid or not, and every sequence of read sizes, empty reads and end-of-file styles a conforming reader may choose",
 "The tests hand Decode whole strings through strings.Reader: one delivery schedule per input; the line unfolder's look-ahead state is only reached when a read ends inside CR LF SP.",
 ["unfolder.go", "decoder.go", "tokeniser.go"],
 [("unfolder.Read carries a possible fold over from one read to the next", "unfolder.go"), ("tokeniser pulls runes through a buffered reader", "tokeniser.go newTokeniser")],
 state=[("look-ahead bytes", "bytes read from the source that may be the start of a fold", "unfolder.go type unfolder")],
 observe=["return values of Decode", "Read calls on the caller's reader"])

prop("C02", "Line folding is invisible to Decode",
 "Inserting folds (CR LF followed by one space or tab) at any octet positions inside content lines - also inside a multi-octet character, repeatedly, and at any position relative to read boundaries - never changes the outcome of Decode.",
 ["inputs", "schedules"], "every stream, every set of fold positions strictly inside content lines, combined with every delivery schedule",
 "TestUnfolder has six hand-written inputs, read whole or with a one-byte destination; no test lets the source deliver a read that ends inside a fold.",
 ["unfolder.go", "decoder.go"],
 [("unfolder.Read removes CR LF SP before the tokeniser sees it", "unfolder.go")],
 observe=["return values of Decode"])

prop("C03", "A truncated stream never decodes",
 "If the stream ends at any byte before the text of the line that closes the calendar is complete, Decode returns an error and no calendar, and does not panic; a partially received calendar is never returned as if it were whole.",
 ["inputs", "crash_points"], "every calendar stream, every byte at which it is cut short, every way of delivering what is left",
 "The only truncated input in the tests is the empty string; no test cuts a stream inside a component, an alarm, a parameter or a fold.",
 ["decoder.go", "sections.go", "sections_alarm.go", "tokeniser.go"],
 [("end of input inside a component is an error", "sections.go decode loops (PhraseDone)"), ("alarm lines are collected before the alarm is decoded", "sections_alarm.go Alarm.decode")],
 observe=["return values of Decode"])

prop("C04", "A reader failure is reported as that failure",
 "If the reader fails with an error other than end-of-file before the text of the line that closes the calendar has been delivered, Decode returns no calendar and an error for which errors.Is reports the reader's error - at whatever byte it happens, whether the error comes with bytes or alone, and even if the reader would have recovered on a later read.",
 ["inputs", "fault_sequences"], "every valid stream, every byte position and style of a reader error, persistent or transient",
 "No test uses a failing reader.",
 ["decoder.go", "unfolder.go", "tokeniser.go"],
 [("read errors reach the tokeniser only as end of input; Decode has to recover them", "decoder.go Decode"), ("unfolder passes the source's error on", "unfolder.go")],
 observe=["error returned by Decode"])

prop("C05", "Decode and Encode always finish and never crash",
 "For every byte stream, well-formed or corrupted in any way, and every delivery of it, Decode returns either a calendar or an error after an amount of work proportional to the stream, without panicking or exhausting the stack. For every non-nil calendar, valid or not, and every writer, Encode likewise returns after work proportional to the calendar, without panicking.",
 ["inputs", "fault_sequences"], "every stream including bit flips, lost, duplicated and reordered blocks, splices and deep nesting; every calendar value; every reader and writer behaviour",
 "The tests decode 7 well-formed streams and a few dozen single values; nothing corrupts a stream and nothing bounds the work done.",
 ["decoder.go", "unfolder.go", "tokeniser.go", "sections.go", "sections_alarm.go", "types.go", "params.go", "properties.go", "folder.go", "encoder.go"],
 [("every loop consumes input", "all decode/encode functions"), ("unknown components are skipped", "sections.go decodeDummy")],
 observe=["return or panic of Decode and Encode", "statements executed"], hook="statement counter, added to a build-time overlay of the package")

prop("C06", "A writer failure stops Encode and is reported",
 "If any write fails, Encode returns an error for which errors.Is reports the writer's error, makes no further write, and the bytes the writer accepted are a prefix of the stream Encode produces for that calendar when nothing fails.",
 ["inputs", "fault_sequences"], "every valid calendar and every write call and byte offset at which the writer can fail, with none, some or all of that call's bytes accepted",
 "No test uses a failing writer.",
 ["encoder.go", "folder.go", "types.go"],
 [("folder keeps the first error and turns later writes into no-ops", "folder.go folder.Write"), ("Encode returns the folder's error", "encoder.go Encode")],
 state=[("sticky error", "first error of the underlying writer", "folder.go folder.err")],
 observe=["Write calls on the caller's writer", "error returned by Encode"])

prop("C07", "A successful Encode has delivered a complete, well-formed stream",
 "When Encode returns nil, the writer has accepted every byte it was given and holds one complete iCalendar stream: lines end in CR LF, no line is longer than 75 octets, no fold splits a UTF-8 character, no control characters occur, and components are balanced from BEGIN:VCALENDAR to END:VCALENDAR. If the writer accepts fewer bytes than it was given, without saying why, Encode returns an error.",
 ["inputs", "fault_sequences"], "every calendar Encode accepts, every writer behaviour including silent short writes",
 "The tests compare six fixed outputs written to a bytes.Buffer, which never accepts less than it is given; line length is only checked on ASCII and one multi-octet case.",
 ["encoder.go", "folder.go", "sections.go", "properties.go", "params.go", "types.go"],
 [("folder breaks lines at 75 octets on rune boundaries", "folder.go"), ("short writes are turned into errors", "folder.go")],
 state=[("column", "octets on the current physical line", "folder.go folder.line")],
 observe=["bytes accepted by the caller's writer"])

prop("C08", "A calendar that fails validation writes nothing",
 "If any part of a calendar is invalid - a missing required time, an ambiguous or missing value choice, text with control characters, an out-of-range recurrence part, an unknown enumeration value or alarm type, properties that exclude each other - wherever in the calendar it is, Encode returns an error without having made a single write.",
 ["inputs", "histories"], "every calendar with at least one invalid part at any depth and position, and the whole write history of the call",
 "No test encodes an invalid calendar.",
 ["encoder.go", "sections.go", "properties.go", "params.go", "types.go", "sections_alarm.go"],
 [("the whole calendar is validated before the first write", "encoder.go Encode"), ("validation visits every component, property, parameter and list element", "valid() methods")],
 observe=["Write calls on the caller's writer", "error returned by Encode"])

prop("C09", "A calendar whose Encode succeeded reads back equal",
 "Encode accepts every valid calendar on a writer that works, and when it returns nil, decoding the stored bytes yields a calendar with exactly the same content - every component, property, parameter and value, in order, nothing lost, added or altered - whatever chunk sizes and earlier failed attempts lie between, and an independent reader of the format finds that same content in the bytes. If Encode failed, the stored bytes decode to an error or to that same calendar, never to a different one.",
 ["inputs", "fault_sequences", "histories"], "every calendar Encode accepts (times in UTC, floating, in a zone of the time-zone database or at an unnamed fixed offset; equality up to what the format cannot express: sub-second precision, empty parameters and lists), every write/read schedule and write fault, and every retry",
 "TestEncode round-trips six calendars that use about a third of the properties and a handful of parameters; symmetric encode/decode mistakes are invisible to it.",
 ["encoder.go", "decoder.go", "sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go", "folder.go", "unfolder.go"],
 [("encode and decode of each type are inverses", "types.go, params.go, properties.go"), ("each component decodes every property it encodes", "sections.go")],
 observe=["bytes accepted by the writer", "calendar returned by Decode"])

prop("C10", "Host time-zone settings never move a decoded time",
 "Whatever the local time zones of the machine that encodes and the machine that decodes, and however they change between calls: UTC times and times in a named zone denote the same instant and zone after the transfer, floating times keep their wall-clock reading, and dates stay the same dates.",
 ["inputs", "configurations"], "every calendar, every pair of local-zone settings of encoder and decoder, including changes between calls in one process (floating readings that exist on the decoding host)",
 "The tests pass only when TZ is UTC and never change the local zone.",
 ["types.go"],
 [("UTC, local and named zones are written and parsed differently", "types.go DateTime.encode/decode, writeTimezone, Recur.encode, Period.encode")],
 observe=["bytes accepted by the writer", "times in the decoded calendar"], hook="local zone and zone lookup replaced through the build-time overlay / time.Local")

prop("C11", "A failed time-zone lookup never yields wrong times",
 "If the time-zone database cannot supply a zone a stream names - unknown zone, unreadable database, failure on some lookups but not others - Decode either returns an error or returns exactly the calendar it would have returned with a working database; a time is never silently placed in another zone.",
 ["inputs", "fault_sequences"], "every stream naming zones and every sequence of failing and succeeding lookups, over successive calls",
 "The tests load one zone that exists.",
 ["types.go"],
 [("lookup errors are returned from the value decoder", "types.go DateTime.decode, Period.decode, Recur.decode")],
 observe=["return values of Decode"], hook="zone lookup replaced through the build-time overlay")

prop("C12", "Concurrent calls do not affect each other",
 "Any number of Decode and Encode calls running at the same time in different goroutines, including several Encodes of one shared calendar, each behave exactly as if run alone, under every interleaving and free of data races; calendars returned by different Decode calls share no mutable state.",
 ["schedules", "inputs"], "every set of concurrent calls with their own readers and writers (and shared read-only calendars) and every interleaving of their steps",
 "Every test is single-threaded.",
 ["decoder.go", "encoder.go", "folder.go", "unfolder.go", "types.go", "params.go", "properties.go", "sections.go"],
 [("all state lives in the call; package variables are never written after initialisation", "package level variables: eol, booleanTrue, booleanFalse, regexFormatType")],
 observe=["return values", "bytes accepted by each writer"], hook="yield points before every statement, added to a build-time overlay of the package")

prop("C13", "Earlier calls leave no trace in later ones",
 "The outcome of a Decode or Encode call depends only on its own arguments: after any history of earlier calls, including ones that failed through reader, writer, validation, syntax or zone-lookup errors, a call returns the same calendar or writes the same bytes as it would in a fresh process. In particular Encode is deterministic, and retrying it after a failure writes the complete, identical stream.",
 ["histories", "fault_sequences"], "every sequence of calls and faults before the call in question",
 "Tests make independent successful calls; none retries after a failure or compares repeated calls.",
 ["decoder.go", "encoder.go", "folder.go", "unfolder.go", "params.go", "types.go"],
 [("folder and unfolder are created per call", "encoder.go, decoder.go"), ("no caches or package-level scratch buffers", "whole package")],
 observe=["return values", "bytes accepted by each writer"])

prop("C14", "Encode never modifies the calendar it is given",
 "After Encode returns, whether it succeeded, was refused by validation or was cut off by the writer at any byte, the calendar passed to it and everything reachable from it is unchanged.",
 ["inputs", "fault_sequences"], "every calendar, every writer fault and fault position",
 "No test looks at the input calendar after an Encode that failed; after success it is only compared for six calendars.",
 ["encoder.go", "sections.go", "properties.go", "types.go"],
 [("encode and valid methods only read", "whole package")],
 observe=["the calendar passed to Encode"])

prop("C15", "Decode does not wait for input it does not need",
 "On a stream that stays open, Decode returns as soon as the line that closes the calendar and one further byte have been delivered, without asking the reader for more; it never waits for a buffer to fill or for end-of-file first.",
 ["schedules", "inputs"], "every valid stream and every delivery of it by a reader that then stays silent",
 "Every test reader is at end-of-file right after the calendar.",
 ["unfolder.go", "decoder.go", "tokeniser.go"],
 [("a read returns what is available; one octet of look-ahead decides whether CR LF is a fold", "unfolder.go"), ("component decoding stops at its END line", "sections.go")],
 observe=["Read calls on the caller's reader"])

prop("C16", "Letter case in names and enumerated values does not matter",
 "However a peer chooses the letter case of component, property and parameter names, of enumerated property and parameter values, of value types and encodings and of Booleans - differently on every line, combined with any folding and delivery - Decode returns the calendar it returns for the upper-case stream.",
 ["inputs", "configurations", "schedules"], "every valid stream, every choice of letter case a peer may make for each of these items, every delivery",
 "The tests use upper-case names only.",
 ["sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go", "decoder.go"],
 [("names are upper-cased before they are compared", "sections.go, sections_alarm.go, properties.go, params.go")],
 observe=["return values of Decode"])

prop("C17", "A newer peer's extensions are skipped without trace",
 "Adding properties, parameters or (nested) components that the package does not know - with any values, at any place inside any component, also inside alarms and between known lines - to a valid stream does not change the calendar Decode returns.",
 ["inputs", "configurations"], "every valid stream, every extension a peer of another version may add, every place it may stand, every delivery",
 "No test stream contains anything unknown.",
 ["sections.go", "sections_alarm.go", "properties.go", "tokeniser.go"],
 [("unknown components are skipped up to their end", "sections.go decodeDummy"), ("property and parameter switches ignore unknown names", "sections.go, properties.go")],
 observe=["return values of Decode"])

prop("C18", "Decode enforces which properties a component must, may and may not have",
 "When properties or components of a valid calendar are lost, repeated or moved on the way, Decode returns an error exactly if a component now lacks a required property, repeats one that may occur only once, or breaks a rule between properties - end or due time with a duration, duration without start, alarm repetition without duration or the reverse, location without proximity, time zone without observance - and otherwise returns exactly the content that arrived.",
 ["inputs", "fault_sequences"], "every valid calendar and every loss, repetition and misdirection of properties and components",
 "No test decodes a stream that violates a component rule.",
 ["sections.go", "sections.gen", "sections_alarm.go"],
 [("required flags and requirement checks", "sections.go"), ("each single property checks that it was not set before", "sections.go")],
 observe=["return values of Decode"])

prop("C19", "Malformed lines and values are rejected, never guessed at",
 "If damage on the way leaves a content line malformed - name, parameter syntax, a repeated parameter, quoting, control characters, line breaks - or a property value outside the grammar and ranges of its type (date, time, duration, period, recurrence rule, offset, integer, coordinates, Boolean, Base64, unescaped separators in text, status or transparency word), Decode returns an error. If the damage leaves a well-formed calendar, Decode returns exactly what that calendar says.",
 ["inputs", "fault_sequences"], "every valid calendar and every damage to one content line; readings on which the format or the package is deliberately liberal (listed in DESIGN.md) excepted",
 "types_test.go samples some malformed recurrence rules, offsets and durations and decodes them in isolation.",
 ["types.go", "params.go", "properties.go", "tokeniser.go"],
 [("decode methods of the value types", "types.go"), ("content line grammar", "tokeniser.go")],
 observe=["return values of Decode"])

prop("C20", "What a conforming peer sends is what Decode returns",
 "For every calendar and every conforming way a peer may write it - order of properties, letter case, quoting, folding, spelled-out defaults, equivalent forms of durations, numbers and offsets, extensions, with one value on each date or period line - and every delivery, Decode returns a calendar with exactly that content, every component, property, parameter and value in its place.",
 ["inputs", "configurations", "schedules"], "every calendar, every writing habit of a conforming peer, every delivery",
 "The tests decode seven streams, all written the way the package writes them.",
 ["decoder.go", "sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go", "tokeniser.go", "unfolder.go"],
 [("each component, property and parameter is read into its own field", "sections.go, properties.go, params.go")],
 observe=["calendar returned by Decode"])

prop("C21", "What Decode returned can be passed on unchanged",
 "For every stream, well-formed or damaged, for which Decode returns a calendar: Encode accepts that calendar, decoding what it wrote returns exactly the same content, and encoding that again writes the identical stream - over any number of hops, and whatever deliveries and failed attempts lie between.",
 ["inputs", "histories", "schedules"], "every stream Decode accepts, every number of hops, every delivery, every sequence of failed attempts",
 "The tests never encode a calendar that was decoded from a stream somebody else wrote.",
 ["decoder.go", "encoder.go", "types.go", "params.go", "properties.go", "sections.go", "sections_alarm.go"],
 [("validation accepts what decoding accepts", "valid and decode methods in types.go, properties.go, sections.go")],
 observe=["return values of Decode and Encode", "bytes handed to the writer"])

prop("C22", "A reader that stops delivering cannot trap Decode",
 "If from any byte on the reader returns only empty reads without an error, for ever, Decode returns after a bounded number of further reads. If the text of the line that closes the calendar was not complete by then, it returns an error and no calendar.",
 ["inputs", "fault_sequences", "schedules"], "every stream, every byte at which the reader stalls, every delivery before",
 "The tests read from strings, which never return an empty read.",
 ["unfolder.go", "tokeniser.go", "decoder.go"],
 [("empty reads are passed on, not retried for ever", "unfolder.Read")],
 observe=["reads made by Decode", "return values of Decode"])

prop("C23", "Decode and Encode only borrow the reader and the writer",
 "Decode uses its reader and Encode its writer only while the call lasts and never twice at the same time, and they never close, reposition or truncate them, whether the call succeeds or fails.",
 ["inputs", "fault_sequences", "histories"], "every stream and calendar, every reader and writer failure, every sequence of calls",
 "The tests use strings and buffers, which cannot be closed and are not looked at afterwards.",
 ["decoder.go", "encoder.go", "folder.go", "unfolder.go"],
 [("only Read and Write are used", "decoder.go, encoder.go")],
 observe=["methods called on the reader and writer, and when"])

prop("C24", "Memory use and work are proportional to the input",
 "However a stream is delivered and damaged, and however many components, lines, list elements or parameters it has, the memory Decode allocates in total and the statements of its own that it executes are bounded by a constant plus a fixed multiple of the length of the stream. The same holds for Encode and the size of the calendar, whether or not the writer fails.",
 ["inputs", "fault_sequences", "schedules"], "every stream and calendar, every damage, every delivery, every write failure",
 "The tests use inputs of a few hundred bytes and measure neither memory nor work.",
 ["decoder.go", "encoder.go", "types.go", "params.go", "properties.go", "sections.go", "tokeniser.go", "unfolder.go", "folder.go"],
 [("what was read is appended, not copied anew for each part", "decode methods in types.go, params.go, sections.go")],
 observe=["bytes allocated during the call", "statements executed during the call"])

prop("C25", "A reader or writer that panics leaves no trace",
 "If the reader panics in Decode or the writer in Encode, at any point, that very panic reaches the caller; if it ends its goroutine, the call does not continue. Every later call, on the same or other data, behaves as if this one had not happened.",
 ["inputs", "fault_sequences", "histories"], "every stream and calendar, every point at which a read or write does not return, every sequence of calls",
 "The readers and writers of the tests always return.",
 ["decoder.go", "encoder.go", "folder.go", "unfolder.go", "tokeniser.go"],
 [("no state outlives a call", "decoder.go, encoder.go")],
 observe=["panic value seen by the caller", "return values of later calls and bytes they wrote"])

prop("C26", "Decode and Encode can be called from inside a reader or writer",
 "A reader or writer may itself call Decode or Encode on other readers, writers and on the same or other calendars, to any depth. Both the outer and the inner calls then return and write exactly what they do on their own.",
 ["inputs", "schedules", "histories"], "every combination of streams and calendars, every point at which a read or write makes further calls",
 "No test calls the package from inside a reader or writer.",
 ["decoder.go", "encoder.go", "folder.go", "unfolder.go"],
 [("no lock or shared buffer is held while the reader or writer is used", "decoder.go, encoder.go")],
 observe=["return values of all calls", "bytes handed to the writers"])

prop("C27", "Every constructor call makes a value of its own",
 "Each call of a constructor of an optional value (the New functions and New methods) returns a pointer to a new variable that holds the given value. Changing what one of them points to changes no other value, made before or after, and has no influence on Decode and Encode.",
 ["histories", "inputs"], "every sequence of constructor calls, changes of their results, and calls of Decode and Encode",
 "The tests use few constructors and never change what they return.",
 ["params.go", "properties.go"],
 [("constructors return the address of their own argument", "params.go, properties.go")],
 observe=["pointers returned by the constructors and the values they point to"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
