#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'C19': "Pure function of two integers: no schedule, stream, clock, fault or shared state for a simulator to decide.",
}
BASE = "Seeded sampling over simulated runs of the real code (instrumented from /repo's working tree): a clean batch is evidence, not proof. Trusts the simulator (scheduler, file system, streams), the reference model and the Go toolchain; amarin/logging and amarin/libxml are stubs. "
NOTES = {
 'C01': ("simulated streams (short, single-byte, data+EOF reads) against a list-of-sets model", "Streams are in-memory models of io.Reader/io.Writer; set sizes up to the format's limits."),
 'C02': ("simulated streams cut or failing at a chosen byte", "Failure points are sampled over every byte position; writers fail, accept part, or go silent."),
 'C03': ("simulated streams against a list-of-tags model", "Catalogues of 0..300 tags."),
 'C04': ("simulated streams cut or failing at a chosen byte", "Tags, tag names and whole catalogues."),
 'C05': ("seeded scheduling of caller tasks under a readers/writer lock, map model, race detector", "Up to 4 callers; containers filled to their documented capacity in some runs."),
 'C06': ("seeded scheduling, stream failures, kills during saves and reloads, against a registration-history model, race detector", "Up to 4 callers, 3 generations, up to 256 tags."),
 'C07': ("generations of save, load, extend and optimize over simulated streams, against a reference model of the index", "Words from six small alphabets (also invalid and huge letters); every stored word, prefix and near miss is compared after every step."),
 'C08': ("seeded scheduling of goroutines at every statement, linearizability search over the recorded history, race detector", "2..5 goroutines, up to 20 calls for the linearizability search (whose state space is capped), longer histories of commuting changes otherwise."),
 'C09': ("stored indexes damaged in eight ways and read through failing simulated streams, under step and allocation budgets", "Budgets are proportional to the size of the file; damage that still decodes is only required to be safe."),
 'C10': ("saves onto failing simulated streams and disks, then reloaded and compared with the model", "Disk and stream failures are sampled over every byte and system call of the save, including the format's limits."),
 'C11': ("a saving and a loading process on a simulated disk with failures, kills and power loss; the file is classified after every visible change", "Directory changes may be lost as a suffix by power loss, so the new index is required to survive power loss only after write-back."),
 'C18': ("seeded scheduling of callers under a readers/writer lock, stream failures, kills during saves and reloads, against a map model", "Up to 4 callers, 3 generations, up to 400 entries of one length."),
 'C12': ("update attempts by simulated processes under network, disk and clock faults, kills and power loss, then one faultless forced update compared with a reference reading of the published dictionary", "Dictionaries are generated (up to about 2000 forms); the server, network, file system and clocks are simulated under the real net/http client, bzip2 and XML readers."),
 'C13': ("whole updates and single stages under network, archive and disk faults over good and malformed generated dictionaries, compared with a reference reading", "Corruption that bzip2's checksums cannot see is not generated; an unframed body cut exactly between archive streams must still never be compiled."),
 'C14': ("histories of publications, clock jumps, faulty checks and downloads; every verdict compared with the stamps of the stored and current versions", "The server always sends a Last-Modified stamp (sometimes unreadable); publications are at least one second apart."),
 'C15': ("update attempts under faults, kills, power loss and malformed publications with a concurrent loading process; the compiled file is classified after every visible change", "One updater at a time per directory; directory changes not yet written back may be undone by a power loss."),
 'C21': ("update attempts by library calls and by the update command under network, disk and clock faults, kills and power loss; after every unforced success the compiled index is compared with the publications current meanwhile", "Dictionaries, server, network, file system and clocks as for C12; forced updates may compile older data when the server cannot be reached."),
 'C20': ("scripted sessions of the real shell on a simulated disk: damaged, removed and replaced indexes, disk faults and a concurrent updating process; every answer compared with the dictionaries the session can have loaded", "Lines come from a stand-in for readline; the analyses, numbers and names of an answer are checked, not its wording; damage that still decodes is only required to be survived."),
 'C22': ("histories mixing possible and impossible operations with saves and loads on failing streams, every answer compared with a reference model after each refusal", "Words from six small alphabets; ids around the number of nodes and near the ends of 31 and 32 bits; at most 26 operations."),
 'C23': ("two to four simulated processes updating or saving one data directory at once, held up, failing or killed between system calls, with readers; the compiled file is classified after every visible change and one faultless update must then leave the current publication", "Updates by library calls; a process is held up for up to 32 network round trips at one or two points of a round."),
 'C24': ("sequences of updates, stages, loads and saves of one simulated process under disk and network faults, damaged files and malformed dictionaries; goroutines, open files, held answers and leftover files are counted after each", "Goroutines, files and answers are those of the simulated system; a goroutine has an hour of simulated time to end; memory is not counted."),
 'C25': ("seeded scheduling of goroutines at every statement, each on objects of its own with failing streams, damaged loads and malformed dictionaries; what each saw is compared with its working alone, what was handed out is looked at again at the end, race detector", "2..4 goroutines; lists of tags are internal memory of the catalogue and only required to stay, not to be protected from the caller; a set given to or got from a store of id sets may be sorted in place."),
 'C26': ("lasting faults of server, answers and disk over several update attempts from any state of the directory; requests counted, step budget, then convergence once the trouble is over", "A server that accepts a request and never answers is not generated: the client has no timeout of its own, so such an attempt lasts as long as the connection."),
 'C27': ("seeded parts of an index written one behind another to failing streams and read back from splitting, cut and failing streams into fresh and used values; compared with what was written", "Counts of bytes are reported, and compared, only by the tag set's own WriteTo and ReadFrom; arbitrary (damaged) bytes are the subject of C10."),
 'C17': ("repeated compilation in differing simulated environments (clock, speed, read sizes, process, directory, leftovers, map order) compared byte by byte", "Map iteration order inside the code under test is a simulator choice (tools/instr rewrites the loops)."),
 'C16': ("simulated processes on a simulated file system with disk faults, kills and power loss", "File system semantics are a model of POSIX; up to 4 processes."),
}
PENDING = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in NOTES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
          "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: " + t,
          "level": "exploration", "level_note": BASE + n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none: build-time overlay", "enable": "no hook in /repo; tools/instr rewrites its sources into /verif/.build and go build -overlay compiles them", "source_commits": []},
 "checks": checks, "not_applicable": na,
 "notes": "check.sh ID --replay FILE replays a reported violation. Repairs of defects are listed in known-findings.jsonl."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
