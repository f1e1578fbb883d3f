#!/usr/bin/env python3
# Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py > MANIFEST.json)
import json, subprocess, sys
DONE = "S01 S02 S03 S04 S05 W01 W02 C01 F01 F02 D01 D02 H02 R02 H01 R01 I01 M01 M02 Q01 T01".split()
NA = {
 "N01": "pure function: interpolating an immutable in-memory field has no schedule, clock, I/O or fault in it for a simulator to vary (concurrent use is Q01)",
 "N02": "pure function: mapping transforms are arithmetic on an immutable object, with no schedule, clock, I/O or fault in it (storage of mappings is D01)",
 "N03": "pure function: resampling computes each voxel from an immutable source field, single-threaded, with no clock, I/O or fault (threaded MIP building is M02)",
 "N04": "pure function: parsing of sequence and pattern strings has no schedule, clock, I/O or fault in it",
}
NOTE = "Seeded search over schedules, faults, data and operation sequences on the real code; a clean batch is evidence, not proof. Assumes sequentially consistent memory between scheduling points, the simulated file system's model of POSIX faults, and the workloads' bounds (see DESIGN.md)."
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in DONE:
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check " + i, evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: seeded search over schedules and faults", level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(dict(version=1, setup_cmd="make -C sim -j8",
    hooks=dict(guard="FIELD3D_SIM_UNUSED", enable="no hooks: the checks compile /repo's sources as they are (with -fsanitize=thread instrumentation and a replacement runtime)", source_commits=[]),
    checks=checks, not_applicable=na), sys.stdout, indent=1); print()
