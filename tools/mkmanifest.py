#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 'C01': ("property-based testing and fuzzing: structured, mutated and hostile inputs; oracle: no panic, abort, stack overflow or hang",
         "Random search; each case parses with both options on a 2 MiB stack and uses everything reachable from the result. Overflow and debug checks are compiled in."),
 'C02': ("property-based testing: declared-size and amplification attacks under a counting allocator; oracle: a linear bound on the peak and a zero balance",
         "The bound is 80 MiB plus 256 bytes per effective byte of input (see DESIGN.md); a leak of any size is seen."),
}
D = ("property-based testing: grammar-based class files, mutations and boundary enumerations against an independent reference reader (accept/reject and full result compared)",
     "Random and enumerated search against a second implementation of the format written for this purpose; what the properties leave open is not judged.")
T.update({
 'C04': ("property-based testing: reference reader plus the metamorphic relation that the pool's layout does not matter", D[1]),
 'C07': ("property-based testing: every text and slice of the result located by pointer inside the input and compared with the reference reader's offsets", D[1]),
 'C08': ("property-based testing: all prefixes, appended bytes and changed lengths of generated files; reference reader as oracle", D[1]),
 'C13': ("property-based testing: every opcode in every form and switch alignment enumerated, random code; reference disassembler as oracle", D[1]),
 'C14': ("property-based testing: every jump at every distance around instruction boundaries enumerated, random and mutated code; invariant over decoded jumps, reference disassembler", D[1]),
 'C15': ("property-based testing: metamorphic relation between parsing with and without bytecode, reference reader as arbiter", D[1]),
 'C16': ("property-based testing: descriptors generated and mutated from the grammar against a reference recogniser; round trip and equality laws", D[1]),
 'C17': ("property-based testing: names over a hostile alphabet in every place that takes one, all short names enumerated; reference predicate", D[1]),
 'C19': ("differential property-based testing of the two builds; concurrent parsing and sharing against single-threaded results",
         "Results, error texts included, of the two builds compared over random inputs; schedules are those the operating system produces over thousands of rounds with barriers."),
 'C20': ("stateful property-based testing: histories of parses in moved and surrounded buffers against results from fresh processes",
         "Random histories; canary inputs are compared with digests obtained in newly started processes."),
 'C21': ("property-based testing with a real compiler: generated Java programs plus the installed runtime library; reference reader as oracle",
         "Everything the installed JDK contains and programs generated per seed; independent of this harness's own class file writer."),
})
checks = []
for i in range(1, 22):
    p = 'C%02d' % i
    t, n = T.get(p, D)
    checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed in /repo: the checks use the public interface only. Findings and fixes: known-findings.txt. Replay a violation with: VH_ROOT=/verif target/vh/release/vh replay FILE."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
