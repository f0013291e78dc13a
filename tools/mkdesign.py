import json,glob,os
T='''# Design

Family of technique: **runtime monitoring**. The real code is run - the command through
`facade.Execute`, the built `gpgpdump` program, and the library packages (`parse`, `parse/reader`,
`parse/result`, `armtext`, `hkp`, `github`) - on generated, hostile and stress workloads, and monitors
decide every observed execution. Nothing in /repo is hooked: every monitor observes through the public
API, the process boundary (exit status, streams, CPU, memory) or the system-call boundary (strace).
A check therefore judges what the code does, not how it is written.

## Shared machinery

* `run.sh ID` builds the harness (`harness/`, one Go module that replaces gpgpdump by /repo) and, where
  needed, the real binary from /repo's working tree into a scratch directory, and runs the check.
  Module files are copied first (`-modfile`), so that /repo and /verif are not written to.
* `harness/vh/driver.go` splits a check into numbered cases per phase. Each case is a pure function of
  (VERIF_SEED, property, phase, number). Worker processes, one per core, run the cases; the driver watches
  each worker's CPU time per case and its resident memory (not wall time, so a loaded machine raises no
  alarm) and turns a dead, stuck or too large worker into an observation for the case it was running.
  A violation is written to `evidence/replays/` with input, what was expected and what was seen;
  `run.sh ID PHASE CASE` runs just that case again.
* Evidence (`evidence/ID.json`) is what the monitors counted: cases, comparisons, distinct non-trivial
  inputs (hash set), and per-monitor counters. Each check has a list of counters that must be non-zero
  ("Need"): a check whose workload did not reach what it is for fails as broken (exit 3) instead of
  passing.
* `harness/gen` generates OpenPGP data: every packet type, version and algorithm, all header formats and
  length encodings, subpackets, nesting, texts, S2K, compression by three compressors written here
  (stored/fixed/dynamic DEFLATE, ZLIB, BZip2), armor; sizes, counts and octets are biased to boundaries.
  `Damage` makes the hostile variants. The driver also reads the integer and string constants that occur
  in /repo's source and the generator uses them (and neighbours) as sizes, counts, octets and texts. This
  steers the workload only: a threshold that a change introduces is likely to be hit; no verdict depends
  on it.
* `harness/vh/mine.go` with `vh/known.txt` goes one step further: declarations of /repo whose hash is not
  the committed one ("hot") have their constants, and those of the functions they name, used more often,
  and phases whose name fits run more cases. A change therefore gets a workload leaning towards it. On the unchanged tree
  nothing is hot; on a refactored tree the workload differs and the verdicts do not.
* Everything runs with TZ=Asia/Kolkata (a zone with a half-hour offset), so that a mix-up of UTC and local
  time, or of offsets, shows in every check that compares times.
* A panic of the generator itself costs its case only; it is counted, and too many end the check as broken.
* `harness/model` is the **reference decoder**, written from RFC 4880, rfc4880bis and the documented
  output form, sharing no code with gpgpdump: own framing, own tables of names, own calendar, own renderer
  of text output. Where the specification leaves open what an octet string means it says "unspecified",
  and the check then makes no claim about that input (counted in the evidence).

Bounds: exploration is by sampling with a fixed seed plus complete enumeration where the space is small
(all 256 codes of each field, all pairs of reader operations, all two-octet search texts, every cut
point of an input). Nothing is proved; levels in MANIFEST.json are `exploration`, or
`fault_enumeration` where fault points are enumerated.

## Properties

For each: what runs, the monitor and its oracle, bounds, cost (quick, 8 idle cores), and why the tests
cannot settle it. None is given up as not applicable.

'''
P=[
('C01','39 s','Hostile inputs of thirteen kinds (random octets, any body under a good header, damaged and cut streams, headers announcing up to 4 GiB at every level, damaged armor and compressed data, embedded signatures and compressed packets nested as deep as lengths allow, hundreds of thousands of tiny packets, chunks, subpackets and armor lines in 16 forms) with random options, through the library, the command (text and JSON) and the real binary.','Monitors: panic/fatal-error capture, CPU time per case (60 s; cases take milliseconds), resident memory, octets allocated against a linear bound in input + expanded data + output, goroutines left behind, exit status 0/1 of the binary.','Only gross disproportion is judged (the allocation bound is about ten times what the tree needs). Deep nesting is excluded from the allocation bound because the dump itself is quadratic there (indentation).','The tests decode well-formed samples only.'),
('C02','33 s','Sequences of 0 to 600 packets, some of 270000, in every header form; every tag at sizes around each length boundary; partial chains; sizes to 17 MiB; also inside compressed data.','Oracle: an independent splitter; names, sizes, order and (with --debug) body octets must be equal.','Up to 270000 packets, single packets up to tens of MiB.','Tests have a few messages with few header forms.'),
('C03','51 s','Signature packets v3/v4/v5; every subpacket type in both areas with boundary lengths, critical bit and content; every flag octet of every flag subpacket; embedded signatures and key blocks; damaged variants; texts, areas and integers around and beyond 64 KiB ("large" phase, also for C04-C07); exact sizes by padding ("fit"); a sixth of the inputs as armored text.','Oracle: the reference decoder, item by item (name, value, note, dump, nesting) over the command\'s JSON output or the library\'s result.','Nesting up to 6 (C01 covers crash freedom deeper).','Tests cover one sample for about half the subpackets.'),
('C04','44 s','Public keys of every version and all 256 algorithms, every known curve OID and near misses, MPIs of every bit length 0-65535 in thorough (boundary-biased in quick), KDF parameters of every length.','Reference decoder as in C03.','','The layout of fields depends on the combination of version, algorithm and length; tests have eleven samples.'),
('C05','46 s','Secret keys: every usage octet, cipher, S2K type, coded count, GNU extensions with serial numbers of every length, v3/v4/v5, clear and encrypted material for every algorithm.','Reference decoder.','Unknown versions and unknown algorithms in v3/v4 are unspecified.','Four fixed defects came from here: which octet a field is read from depends on the combination.'),
('C06','48 s','Tags 1, 3, 4, 9, 18, 19, 20 of every version and algorithm; histories of up to 12 packets of session keys, encrypted data and others.','Reference decoder incl. a state machine of "last session key of this message".','','A property of histories; tests have single messages.'),
('C07','38 s','Literal, compressed (three own compressors, all block types), user ID, attribute, marker, trust; every rune of the first planes, invalid UTF-8, all literal formats; image attributes.','Reference decoder; for compressed packets also the dump of the content by the same tool.','','Whole text space, not samples.'),
('C08','17 s','Complete sweep: all 256 values of 22 code fields, in several contexts each (with the neighbouring fields varied), text and JSON.','Tables of names typed from the specification, not from the source.','Complete for single octets.','Tests compare some tables with themselves, none through the dump.'),
('C09','43 s','**Fault enumeration**: well-formed inputs cut at every octet; nested data cut with all outer lengths repaired; every packet\'s and subpacket\'s body ended early, also after other packets, for each of the 256 algorithms and each version, and inside integers of up to 65535 bits; single octets changed; lengths announced against what is there; and whole inputs, which must be accepted.','Oracle: the reference decoder says complete or not; the command must refuse (status, message, empty stdout) or accept accordingly.','Inputs up to some hundred octets are cut everywhere, long ones at sampled places.','For every cut point; tests have none.'),
('C10','39 s','Armor with every block type, header, line length, line end, text around, clear-signed text in front, several blocks, lines of megabytes and 300000 lines; damaged (checksum, characters, lines, any octet in a line) and cut, also with a whole block behind the cut one.','Oracle: dump of the armored text = dump of the binary (command, library, armtext.Get); damage must be refused, where the CRC-24 and structure say it is damage.','Blocks up to 6 MB.','Metamorphic relation over all inputs.'),
('C11','58 s','The same octets as file, pipe, stdin, byte slice, and through readers that give 1 octet, random pieces, data together with EOF, zero-length reads; 1 to 130 MiB; read errors injected at each offset; EISDIR, EIO-like and closed descriptors on the real binary; readers of several types already partly read; the usual environment variables and every name that occurs as a string in the code set to values.','Oracle: equality of all outputs among each other and with the reference decoder; injected fault => error.','130 MiB.','Interleavings of reads and fault points.'),
('C12','36 s','All option subsets over generated packets, on the command line and by name through the library\'s context; secret keys with recognisable secrets.','Monitor: removing dump values and comparing with the plain dump gives the same tree; the set of items that gained a dump is the set the option is for; each dump equals the item\'s octets (reference decoder); no secret octets without the option.','','64 option sets times every item kind.'),
('C13','35 s','Times over the whole 32-bit range with boundary bias, in 12 zones (also 5:45, -3:30, DST, historical), expiration histories over keys, subkeys, signatures, embedded signatures.','Oracle: own proleptic calendar and own zone arithmetic; expiration = own creation + period.','2^32 instants are sampled, not enumerated.','Tests have a handful of dates, in UTC.'),
('C14','39 s','Packets with hostile text and every item kind, signatures nested 40 deep, at indents -1..200.','Monitor: JSON is parsed and written out by an independent renderer; must equal the text output octet for octet; indented JSON compacts to compact JSON; library renderings agree.','',''),
('C15','29 s','Every control and special rune in every text field, every octet at every place of small packets.','Monitor: octet scanner over stdout (UTF-8, no control characters, line grammar, nesting steps) and over every decoded JSON string.','',''),
('C16','19 s','Command lines from a grammar, valid and invalid, by the real binary and in process; output failure injected at every offset, /dev/full, closed pipe; Web commands with answers, refusals, missing and extra arguments and failing output; version with a failing standard error.','Oracle: the grammar knows whether the request is valid, the library whether the input decodes; status/stdout/stderr must agree.','The texts of messages are not judged.','Fault points of output are enumerated.'),
('C17','20 s','Built with **-race**. Rounds of 2-16 goroutines on the same, shared and different inputs, with yields injected between reads; also in fresh processes (first-use initialisation); contexts set up by constructor, by Set and by name; near twins of an input (one octet apart) side by side.','Monitors: Go race detector; results equal to those obtained alone and to the reference decoder; shared input octets unchanged; overlap is measured and counted.','The race detector sees races between executed accesses; interleavings are those of the scheduler and injected yields. Distinct completion orders are in the evidence.','Schedules.'),
('C18','93 s','Compressed contents of 1 GiB-1, 1 GiB, 1 GiB+1, up to 64 GiB (streams of a few MiB built by own compressors), by three algorithms, through the real binary; several packets that are each below the limit in one input, and in one process one after the other.','Monitor: resident memory (<9 GiB), CPU time, and the dump: exact size, or the remark plus the packets behind.','','Needs gigabytes, which no unit test affords.'),
('C19','9 s','hkp.New(...).Fetch with every host form, port, protocol and search text (all two-octet texts), through a recording stand-in client with failures; ports that cannot be (0, negative, over 65535) must give exactly that request or an error without any request; sequences of lookups through one server value.','Trace monitor: exactly one GET; URL parsed by an independent parser has exactly the parameters; body and failures returned.','',''),
('C20','24 s','Simulated GitHub accounts of 0-2000 keys, some of up to 110000, near-miss IDs, nulls, duplicates, pages of more than 100, failures at each page; sequences of lookups for different users through one client.','Online monitor of the paging protocol over recorded requests; the result must be the first matching key\'s text or an error.','',''),
('C21','70 s','The Web commands, in process and as the real binary, against an origin, proxy and TLS server on the loopback; framings, encodings, redirects, delays of every part of the answer ("slow" phase), bodies to 8 MB; keys that are not armored text; faults: status, cut at any octet, reset, bad gzip, garbage, refused, untrusted.','Oracle: dump of the same octets locally; fault => error.','Timing is not judged.','Faults and framings.'),
('C22','34 s','Random scripts of up to 60 reader operations and all pairs of operations over small sizes and offsets.','Online cursor model: each step\'s octets, error, position, rest.','','Histories of operations; this is how five defects were found.'),
('C23','43 s','Concatenations of independently made messages, plain and wrapped.','Metamorphic: dump(a+b) = dump(a)+dump(b) unless the model says that state may be carried, and then only in the lines it may be.','',''),
('C24','18 s','The real binary and batches of executions under **strace** as an unprivileged user in a scratch directory.','Offline checker over the system-call log: reading opens only, of the named file and the files the Go runtime and time zone need; no creation, change, exec, socket; writes only to 1 and 2; directory compared before and after.','Clipboard use starts another program by design and is left to C26.','Side effects are invisible to tests of results.'),
('C25','24 s','Sequences of 2-8 executions in one process, each also run by the real binary in a fresh one; longer histories in one process against the reference decoder.','Equality of status, stdout, stderr and requests made.','','Histories.'),
('C26','20 s','The real binary with stand-ins for xclip, xsel, wl-paste on its PATH (contents, failures, none at all), combined with other options and stdin.','Oracle: same text on stdin with --armor; the stand-in\'s log shows that it was read, only when asked, and never written to.','Linux clipboard programs only.','The tests have no clipboard.'),
('C27','13 s','The real binary with fetch, hkp and github, --raw, --json and --debug, against loopback servers that stop at a given point (before accepting, in the TLS handshake, before the status, in the headers, in a redirect, on page n of keys, in the middle of the body, plain or gzip); SIGINT is sent when the server has reported that the point is reached; also with the interrupt ignored by the parent.','Monitor: the process ends by itself with non-zero status and a message (0 with --debug), stdout empty or with --raw a prefix of what was sent, and the servers log no request after the signal.','An interrupt before signal handling is set up has the default action and is accepted as such. How long "at once" may take is not judged finely (generous limit, no verdict from load).','Fault points in time; tests never interrupt.'),
]
EXTRA=json.load(open('/verif/tools/extra_props.json')) if os.path.exists('/verif/tools/extra_props.json') else []
titles={}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); titles[p['id']]=p['title']
out=T
for id,cost,work,mon,bound,why in P+[tuple(x) for x in EXTRA]:
    out+=f"### {id} - {titles[id]} ({cost})\n\n* Workload: {work}\n* {mon if mon.startswith(('Monitor','Oracle','Metam','Trace','Online','Offline','Equality','Reference')) else 'Monitor: '+mon}\n"
    if bound: out+=f"* Bounds: {bound}\n"
    out+=f"* Beyond the tests: {why or 'must hold for every input and option set; tests sample a handful.'}\n\n"
out+=open('/verif/tools/design_tail.md').read()
out+='''
## Planted bugs

Each was confirmed in a scratch copy (builds, passes the stable tests, demonstration fails with it and passes
without) and then run against the check of its property. All in this table are caught by that check
("first missed" = the check was strengthened because of it).

| id | property | needs | first missed |
|---|---|---|---|
'''
missed=set('c02-many c10-long-line c11-large-lf c17-time-memo c21-fetch-limit c24-tempfile c26-fallback-stdin'.split())
if os.path.exists('/verif/tools/missed.txt'): missed|=set(open('/verif/tools/missed.txt').read().split())
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    out+=f"| {i} | {m['property']} | {m['needs'].strip().replace('|','/')} | {'yes' if i in missed else ''} |\n"
open('/verif/DESIGN.md','w').write(out)
