#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. CLAIMED: property -> level note.
import json
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
PURE="pure function of its input: no concurrency, time, I/O or other party for a simulator to control; see DESIGN.md"
SKIP={"X01":PURE,"X02":PURE,"X03":PURE}
BASE="seeded search: a clean batch is evidence for the schedules and faults sampled, not proof. "
CLAIMED={
"R01":"real sip-ratelimit; callers simulated",
"R02":"real sip-ratelimit; callers simulated",
}
import os,sys
exec(open(os.path.join(os.path.dirname(__file__),'claimed.py')).read())
checks=[]
for p in props:
    if p in CLAIMED:
        checks.append(dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",
            evidence_file=f"evidence/{p}.json",level="exploration",
            technique="deterministic simulation with fault injection: seeded search over thread schedules, virtual time and faults of the real code",
            level_note=BASE+CLAIMED[p]))
na=[dict(property=p,reason=SKIP.get(p,"no check built yet; see DESIGN.md")) for p in props if p not in CLAIMED]
m=dict(version=1,setup_cmd="bash check.sh build",hooks=dict(guard="cargo feature sim-hooks of sip-transaction (off by default)",enable="--features sim-hooks; /verif/sim/Cargo.toml turns it on. All other seams are the libc symbols the process calls and compiler-inserted coverage points, both added at build time in /verif/sim",source_commits=["16d22d6"]),checks=checks,not_applicable=na,
 notes="Simulator in /verif/sim; see DESIGN.md. Replay: sim/target/debug/simcheck replay FILE. Determinism self-test: sim/target/debug/simcheck selftest.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
