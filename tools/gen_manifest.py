import json
TECH={
"C01":"runtime monitoring: model-based handle monitor over random histories, long slot-reuse runs",
"C02":"runtime monitoring: online model comparison of every entity after every operation",
"C03":"runtime monitoring: query results checked online against the model",
"C04":"runtime monitoring: write/read cross-checks over all access paths against the model",
"C05":"runtime monitoring: destructor ledger with unique tokens (exactly-once)",
"C06":"sanitizers and interpreters: Miri, AddressSanitizer, allocator monitor, alignment monitor",
"C07":"runtime monitoring: controlled lock schedules with blocking oracle, shadow reader/writer counters under stress, Miri and ThreadSanitizer race detection",
"C08":"runtime monitoring with fault injection: misuse and panicking destructors, then full model comparison",
"C09":"runtime monitoring: run-time layouts with address, byte and destructor monitors",
"C10":"runtime monitoring: model comparison over component despawns and slot reuse",
"C11":"runtime monitoring: differential execution against typed vectors",
"C12":"runtime monitoring and sanitizers: destructor ledger, allocator monitor, Miri, AddressSanitizer",
"C13":"runtime monitoring: builder histories (orders, hints, abandoned, twice) against the model",
"C14":"runtime monitoring: archetype partition and row monitor over random histories",
"C15":"runtime monitoring: index bound and allocator accounting over histories and repeated cycles",
"C16":"runtime monitoring: recorded event logs compared between runs, interleavings and processes",
}
NOTE="Holds on every execution the monitors saw, nothing more; trusts the harness' model, rustc and the sanitizers. See DESIGN.md for workloads and limits."
json.dump(dict(version=1,setup_cmd="python3 check.py --build native plain asan miri",
 checks=[dict(property=p,quick_cmd=f"VERIF_TIER=quick python3 check.py {p}",thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",technique=t,level="exploration",level_note=NOTE) for p,t in TECH.items()],
 not_applicable=[],notes="No hooks in /repo. Genuine defects: known_findings.json and DESIGN.md."),open("/verif/MANIFEST.json","w"),indent=1)
