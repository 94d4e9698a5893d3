#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
T={
"R01":("seeded deterministic simulation: peer, corrupting and fragmenting transport, retrying receiver; history checked against the unfragmented reference decoder",
  "Sampled schedules (cuts, delays, duplicates, resets) and streams; oracle is an independent reference decoder. Trusts the reference decoder and asn1-rs for the digits of times."),
"R02":("seeded deterministic simulation of partial delivery and lost connections; every answer checked against reference framing, receivers that sleep on the announced count checked for progress",
  "Sampled streams, every byte position of short ones. One known finding (DER count of missing bytes) is listed in KNOWN_FINDINGS.txt."),
"R03":("seeded deterministic simulation of pipelined deliveries: same element with different later data, addresses of everything exposed checked",
  "Sampled elements and followers; over-reads are seen through results, callback arguments and slices, not through hardware watchpoints."),
"R04":("seeded deterministic simulation with corruption, truncation, hostile peers, bulk elements, panicking callbacks; process death, panic and hang are the violations",
  "Sampled; built with overflow checks, debug assertions and unoptimised library code, 2 MB stacks, 40 s watchdog."),
"R05":("seeded deterministic simulation of hostile peers under resource limits: bounded stack, counted allocator, depth limits around the boundary",
  "Sampled; stack and heap allowances are 3-4 times what the current code uses, so they detect loss of the bound, not small growth."),
"R06":("seeded deterministic simulation: Byzantine encoder breaks one DER rule at a drawn level, transport fragments and corrupts; refinement check against the reference model and the BER readers",
  "Sequential property: the only nondeterminism is the peer and the transport. Sampled messages and faults."),
"R07":("seeded deterministic simulation: peer, corrupting and fragmenting transport; refinement check against an independent reference decoder",
  "Sequential property: the only nondeterminism is the peer and the transport. Sampled messages and faults; digits of times are judged by asn1-rs."),
"R08":("seeded deterministic simulation: received, possibly corrupted objects are inspected by a client; answers checked against big-integer reference arithmetic",
  "Sequential property: the only nondeterminism is the peer and the transport. Sampled, biased to width, sign and padding boundaries."),
"R09":("seeded deterministic simulation of storage: faulty sinks (errors, interrupts, short, zero, full, panic, crash with torn tail) at every write, retries and log recovery",
  "Sampled fault points and histories; success is compared with bytes really accepted."),
"R10":("seeded deterministic simulation: producer, relays that decode and re-encode, transport, consumer; end-to-end value and wire bytes checked",
  "Sampled objects and relay chains. Optional-in-optional nesting and time offsets -00mm are outside the statement's oracle."),
"R11":("seeded deterministic simulation with scripted callbacks as the fault seam: failures, panics, incomplete, partial consumption at drawn calls; recorded callback history checked against a model",
  "Sampled containers, scripts and re-use histories."),
"R12":("seeded deterministic simulation with scripted callbacks as the fault seam around tagged and optional combinators; recorded callback history checked against a model",
  "Sampled elements, tags, scripts and re-use histories."),
"R13":("deterministic scheduler over real threads: one baton, yield points at callbacks, sinks, visitors and allocations, seeded decisions, injected panics; every result compared with the same operation alone in a fresh process",
  "Sampled interleavings at the yield points; code between two yield points runs atomically, data races at instruction level are not simulated."),
"R14":("seeded deterministic simulation: visitors whose callbacks edit, panic or start nested visits at drawn calls; callback history checked against a reference traversal",
  "Sampled trees, edits and panics."),
"R15":("seeded deterministic simulation: text sinks that fail or panic at drawn writes, option histories; text checked against an exact reference printer",
  "Sampled objects. The reference printer fixes the present text format of entries."),
}
m={"version":1,"setup_cmd":"bash check.sh build",
"checks":[{"property":k,"quick_cmd":f"bash check.sh {k}","thorough_cmd":f"bash check.sh {k} --tier thorough","technique":t,"level":"exploration","level_note":n} for k,(t,n) in T.items()],
"not_applicable":[
 {"property":"N01","reason":"The macro is a pure function evaluated by the compiler: no scheduling, time, I/O, fault or second party exists for a simulator to control; every case is a separate compilation. Deciding it would be differential testing or proof of an encoder, not simulation."},
 {"property":"N02","reason":"Feature combinations are build configurations: the property is decided by compiling each of them, and nothing at run time is nondeterministic. One simulated process contains one configuration."}]}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
