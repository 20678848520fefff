#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand after adding a check)."""
import json
T = "deterministic simulation with fault injection: "
C = {
"C01": ("seeded delivery schedules of a simulated reader", "Every outcome is compared with that of one whole read of the same bytes."),
"C02": ("seeded fold positions and delivery schedules", "Every outcome is compared with that of the unfolded stream."),
"C03": ("seeded crash points of a simulated connection", "Streams come from an independent reference writer, so they use forms the encoder never writes."),
"C04": ("seeded read errors of a simulated reader", "Error values of several shapes, with and without bytes, lasting and transient."),
"C05": ("seeded corruption, delivery and write faults under a statement budget", "Termination is judged by a count of executed statements, not by a clock; the stack is limited to 16 MB."),
"C06": ("seeded write errors of a simulated store", "The fault-free output of the same calendar is the reference."),
"C07": ("seeded short writes of a simulated store, output scanned independently", "The scanner checks physical form only; content is the business of C09."),
"C08": ("one invalid part planted at a seeded place, write history observed", "The list of what is invalid is written out in sim/checks/plant.go."),
"C09": ("store, crash, retry and read back through a simulated store", "The content oracle is an independent reader of the format (sim/model)."),
"C10": ("seeded host time zones on a simulated network of hosts", "Zones come from the database of the Go distribution, embedded in the simulator."),
"C11": ("seeded failures of a simulated zone database", "Lookups are intercepted at time.LoadLocation."),
"C12": ("seeded scheduler with preemption at statement granularity, plus race detector", "If the package comes to use goroutines or channels of its own, scheduling becomes call-level only."),
"C13": ("seeded histories of calls and faults, compared with fresh processes", "A fresh process is a real new process."),
"C14": ("seeded write faults, deep snapshot of the calendar before and after", "The snapshot includes pointers, slice headers and spare capacity."),
"C15": ("simulated connection that stays open", "A request for more input after the closing line and one byte is the violation; no clock is used."),
"C16": ("peers with seeded letter case on a simulated link", "Compared with the content the stream was written from."),
"C17": ("peers of another version with seeded extensions on a simulated link", "Compared with the content of the stream without extensions."),
"C18": ("a simulated link that loses, repeats and misdirects lines", "Rules are derived from the exported types and written out in sim/model/rules.go."),
"C19": ("a simulated link that damages single lines", "A strict independent reader judges each line malformed, well-formed or open to interpretation; the last are skipped and counted."),
"C20": ("peers with seeded writing habits on a simulated link", "Streams come from an independent reference writer."),
"C21": ("multi-hop relay over simulated links and stores", "What the first hop accepted is the reference for all others."),
"C22": ("a simulated reader that stalls at a seeded byte", "Ten thousand fruitless reads count as being trapped; no clock is used."),
"C23": ("instrumented loans of simulated readers and writers, with seeded faults", "Uses after the call are looked for after every later call of the run."),
"C24": ("seeded growth of streams on a simulated link, with damage and delivery faults, memory metered", "The bound is 1 MiB plus 1000 bytes for each byte of input, several times what the package needs; four times the input may take at most seven times the statements."),
"C25": ("simulated readers and writers that panic or end their goroutine at a seeded point", "Later calls are compared with what they did before the fault."),
"C26": ("seeded schedule of calls nested inside simulated readers and writers", "Every call is compared with the same call on its own; a lock held over a read or write shows up as a deadlock."),
"C27": ("seeded histories of constructor calls, changes and codec calls", "All constructors the package exports today are called; the history is the only thing that varies."),
}
NA = {
}
m = dict(version=1, setup_cmd="true",
    hooks=dict(guard="none: no hook is committed to /repo", enable="run.sh instruments a copy of the working tree's sources into /verif/.build and builds with go build -overlay", source_commits=[]),
    checks=[dict(property=k, quick_cmd=f"./run.sh {k} --tier quick", thorough_cmd=f"./run.sh {k} --tier thorough", evidence_file=f"evidence/{k}.json",
        technique=T + t, level="exploration", level_note="Seeded sampling of the real codec in a simulated environment; a pass covers the runs counted in the evidence. " + n) for k, (t, n) in C.items()],
    not_applicable=[dict(property=k, reason=v or "A pure function of the input bytes: no schedule, fault or environment choice takes part.") for k, v in NA.items()],
    notes="Every check rebuilds from /repo's working tree. ./run.sh ID --replay FILE repeats one recorded execution. Findings: KNOWN_FINDINGS.txt.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
