package checks

import "verif/sim/core"

// Info describes a check to the driver.
type Info struct {
	Fn    core.Check
	Quick int // runs in the quick tier
	Batch int // runs per process
	// Fatal says that a run that kills its process breaks the property.
	Fatal bool
	// Hang says that a run that does not end breaks the property.
	Hang bool
	// Rule says what a case is and when it is not trivial.
	Rule string
	// Measure says what is counted as distinct situations.
	Measure string
}

// Thorough is how many times as many runs the thorough tier does.
const Thorough = 16

const (
	measureRead  = "distinct (class of the two bytes before, class of the two bytes after) contexts at which a delivery was split, plus (failure kind, yield point) pairs at which the reader failed"
	measureWrite = "distinct (write fault kind, yield point of the codec at which it struck) pairs"
)

// All maps property ids to checks.
var All = map[string]*Info{
	"C01": {Fn: c01, Quick: 48000, Batch: 400, Rule: "a run decodes one stream (valid, damaged, or followed by other data) whole and under 1-4 drawn deliveries; runs are distinct if the hash of their complete event log differs", Measure: measureRead},
	"C02": {Fn: c02, Quick: 40000, Batch: 400, Rule: "a run decodes one set of content lines unfolded and under 1-3 drawn foldings and deliveries; runs are distinct if the hash of their complete event log differs", Measure: measureRead},
	"C03": {Fn: c03, Quick: 60000, Batch: 400, Fatal: true, Rule: "a run decodes 1-6 truncations of one valid stream; runs are distinct if the hash of their complete event log differs", Measure: measureRead},
	"C04": {Fn: c04, Quick: 48000, Batch: 400, Rule: "a run decodes one valid stream under 1-4 drawn reader failures; trivial if Decode does not accept the stream without a failure; distinct if the event-log hash differs", Measure: measureRead},
	"C05": {Fn: c05, Quick: 80000, Batch: 400, Fatal: true, Hang: true, Rule: "a run decodes 1-12 damaged versions of one stream, or encodes one arbitrary calendar, with drawn reader/writer faults; distinct if the event-log hash differs", Measure: measureRead + ", plus " + measureWrite},
	"C06": {Fn: c06, Quick: 80000, Batch: 400, Rule: "a run encodes one valid calendar without faults and under 1-6 drawn write errors; trivial if Encode refuses it without faults; distinct if the event-log hash differs", Measure: measureWrite},
	"C07": {Fn: c07, Quick: 80000, Batch: 400, Rule: "a run encodes one calendar (valid or distorted) without faults and under 1-5 drawn short writes or write errors; trivial if Encode refuses it; distinct if the event-log hash differs", Measure: measureWrite},
	"C08": {Fn: c08, Quick: 200000, Batch: 500, Rule: "a run encodes one valid calendar after planting one invalid part; trivial if Encode refuses it before the planting; distinct if the event-log hash differs", Measure: measureWrite},
	"C09": {Fn: c09, Quick: 36000, Batch: 400, Rule: "a run stores one valid calendar after 0-3 attempts with write faults, reads it back twice (reference reader, Decode under a drawn delivery) and stores it again; distinct if the event-log hash differs", Measure: measureWrite + ", plus " + measureRead},
	"C10": {Fn: c10, Quick: 48000, Batch: 400, Rule: "a run sends one calendar over 1-3 hosts with drawn local zones; trivial if a codec call refuses it; distinct if the event-log hash differs", Measure: "distinct (zone of the encoding host, zone of the decoding host) pairs, plus delivery split contexts"},
	"C11": {Fn: c11, Quick: 48000, Batch: 40, Rule: "a run decodes one stream 1-5 times under drawn lookup failures and once with a working database; trivial if the stream names no zone; distinct if the event-log hash differs", Measure: "distinct yield points at which a lookup failed, plus delivery split contexts"},
	"C12": {Fn: c12, Quick: 6000, Batch: 40, Fatal: true, Hang: true, Rule: "a run executes 2-6 calls alone and under one drawn interleaving; trivial if a call crashes on its own; distinct if the event-log hash differs", Measure: measureRead + ", plus " + measureWrite},
	"C13": {Fn: c13, Quick: 20000, Batch: 400, Rule: "a run repeats one Decode and one Encode after each of 1-8 other calls with drawn faults; trivial if the calls crash on their own; distinct if the event-log hash differs", Measure: measureRead + ", plus " + measureWrite},
	"C14": {Fn: c14, Quick: 36000, Batch: 400, Rule: "a run encodes one calendar (valid, with an invalid part, or distorted) 1-4 times under drawn write faults; distinct if the event-log hash differs", Measure: measureWrite},
	"C15": {Fn: c15, Quick: 48000, Batch: 400, Rule: "a run decodes one valid stream 1-3 times from a connection that stays open; trivial if Decode does not accept the stream; distinct if the event-log hash differs", Measure: measureRead},
	"C16": {Fn: c16, Quick: 50000, Batch: 400, Rule: "a run decodes one calendar 1-3 times with drawn letter case; trivial if Decode does not read the calendar in upper case; distinct if the event-log hash differs", Measure: measureRead},
	"C17": {Fn: c17, Quick: 40000, Batch: 400, Rule: "a run decodes one calendar 1-3 times with drawn extensions; trivial if Decode does not read the calendar without them; distinct if the event-log hash differs", Measure: measureRead},
	"C18": {Fn: c18, Quick: 40000, Batch: 400, Rule: "a run decodes 1-6 versions of one calendar with lost, repeated or misdirected properties and components; trivial if Decode does not read the calendar itself; distinct if the event-log hash differs", Measure: measureRead},
	"C19": {Fn: c19, Quick: 60000, Batch: 400, Rule: "a run decodes 1-12 versions of one calendar with one damaged value; trivial if Decode does not read the calendar itself; distinct if the event-log hash differs", Measure: measureRead},
	"C21": {Fn: c21, Quick: 32000, Batch: 400, Rule: "a run passes 1-6 streams of one calendar (as written by a peer, or damaged) over 2-4 nodes; distinct if the event-log hash differs", Measure: measureRead + ", plus " + measureWrite},
	"C22": {Fn: c22, Quick: 48000, Batch: 400, Hang: true, Rule: "a run decodes one valid stream under 1-4 drawn stalls; trivial if Decode does not accept the stream; distinct if the event-log hash differs", Measure: measureRead},
	"C23": {Fn: c23, Quick: 48000, Batch: 400, Rule: "a run lends readers and writers with drawn faults to 2-6 calls; distinct if the event-log hash differs", Measure: measureRead + ", plus " + measureWrite},
	"C24": {Fn: c24, Quick: 20000, Batch: 400, Rule: "a run decodes 1-3 streams of one calendar, or encodes it, and measures the memory allocated; distinct if the event-log hash differs", Measure: "distinct (call, magnitude of its input, magnitude of the memory allocated) triples"},
	"C25": {Fn: c25, Quick: 24000, Batch: 500, Fatal: true, Hang: true, Rule: "a run makes 1-5 calls with a reader or writer that panics or ends its goroutine, and repeats two other calls after them; trivial if those crash on their own; distinct if the event-log hash differs", Measure: "distinct yield points at which a read or write did not return, plus delivery split contexts"},
	"C26": {Fn: c26, Quick: 24000, Batch: 200, Fatal: true, Hang: true, Rule: "a run makes 1-3 calls whose reader or writer makes up to 7 other calls, nested up to 4 deep; trivial if a call crashes on its own; distinct if the event-log hash differs", Measure: "distinct yield points from which a nested call was made, plus delivery split contexts"},
	"C27": {Fn: c27, Quick: 60000, Batch: 500, Rule: "a run is a history of 2-41 constructor calls, changes of the values, and calls of Decode and Encode; distinct if the event-log hash differs", Measure: "distinct constructors called"},
	"C20": {Fn: c20, Quick: 60000, Batch: 400, Rule: "a run decodes one calendar as written by 1-3 peers with drawn habits; distinct if the event-log hash differs", Measure: measureRead},
}
