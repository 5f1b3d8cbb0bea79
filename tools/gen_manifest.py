import json
T="deterministic simulation with fault injection (seeded search over histories, schedules and faults)"
notes={
"C01":"Seeded exploration: random histories of all creation, edit and navigation operations on up to five live indices per run, every fixed-width type (five widths, and five again with user-supplied bit storage), static and dynamic storage, depths 0 to 2100 (rarely 66 000), with failing allocations and panicking storage in between; after every operation all live indices are compared cell by cell with a list-of-cells model. No proof; trusts the model (a Vec of cells) and the simulator.",
"C02":"Seeded exploration: indices are edited and exported (coordinates under every ordering, three namings), records are synced or not, power is lost at a byte, and every surviving record is re-imported into every configured storage type plus others; results are compared with the exported cells and a bit-by-bit coordinate model. Depths above 64 are out of scope (coordinates wider than usize).",
"C03":"Seeded exploration: every operation kind is cut short at allocation n, from allocation n on, by size, or at access n to user-supplied bit storage; afterwards all live indices must equal their models, the retry must succeed, and the rest of the history must give the same digests as the same history without faults. The position of an iterator interrupted inside next() is not promised and not checked.",
"C04":"Seeded exploration: covered operations run with every allocation failing, and again with memory; both results must agree. Panicking refusals (which format a message) are not run with the heap exhausted.",
"C05":"Seeded exploration: every live index is compared with a twin built by one of fourteen routes (cells, zeroing, random-order writes, navigation, coordinates, raw bits with noise in unused bits, conversion, inversion, copies; any of them interrupted and retried) and with a near miss; equality, all comparison operators, and three hashers fed the same index are checked against the model.",
"C06":"Seeded exploration: tree sets, hash sets and sorted vectors are filled, queried, drained and rebuilt after a crash in random arrival orders with duplicate deliveries from several clients; membership, order and every lookup are compared with a model ordered lexicographically by cells.",
"C07":"Seeded exploration: indices wander between fixed, static and dynamic storage between edits and navigation, with allocations failing during moves; cells, refusals and their named capacity are checked, and each moved index is put through a battery of operations side by side with a freshly built one.",
"C08":"Seeded exploration of schedules at machine-instruction granularity: 2 to 4 caller threads under a baton scheduler, preempted by the trap flag after a chosen number of instructions inside an operation; every result must equal the result of the same caller running alone, and again with unrelated work in between. Sequential consistency only; x86-64 only.",
"C09":"Seeded exploration: up to six open iterators over up to five indices advanced in random interleavings by next/nth/size_hint/count/last/collect, abandoned, polled past the end, with failing operations in between; compared with the cell list at opening.",
"C10":"Seeded exploration: lists of 0 to 40 indices are formatted into a writer that takes n bytes, refuses call n (for good or once), or panics, and under failing allocations; outcome, bytes written, and writes after the failure are checked against the names of the single indices.",
"C11":"Seeded exploration on an audited heap: each history runs under three different contents of fresh, neighbouring and freed memory with guard zones and a quarantine; results must be identical, guards intact, frees exact, and nothing may stay allocated. Memory kept once per process (a table built on first use) is not counted as a leak. Reads beyond a block are seen only through their effect on results.",
"C12":"Seeded exploration: a caller is stopped after a chosen number of instructions inside an operation until all others are finished; the others must finish (a sleeping or spinning caller is reported) and the stalled one must end with the result it has when it runs alone.",
}
na={
"C13":"A statement about a pure function of one input: no history, schedule, fault or crash can change it, so a simulator has nothing to decide. The part that depends on history and crashes (export, crash, re-import) is claimed as C02.",
"C14":"Totality, antisymmetry and transitivity of a pure comparison function over pairs and triples of values; no history, schedule or fault is involved. What users see of it, the behaviour of sorted and hashed collections under arrival orders, is claimed as C06, and agreement with equality as C05.",
"C15":"Pure bit manipulation on one value; no concurrency, time, I/O or failing operation for the result to depend on.",
"C16":"Pure functions on small integers; no concurrency, time, I/O or failing operation for the result to depend on.",
"C17":"A pure arithmetic function; no concurrency, time, I/O or failing operation for the result to depend on.",
"C18":"Finite tables of pure functions; no concurrency, time, I/O or failing operation for the result to depend on (their use in coordinates is exercised by C02).",
}
m={"version":1,"setup_cmd":"python3 check.py build",
"checks":[{"property":p,"quick_cmd":f"python3 check.py check {p} --tier quick","thorough_cmd":f"python3 check.py check {p} --tier thorough","evidence_file":f"evidence/{p}.json","technique":T,"level":"exploration","level_note":n} for p,n in notes.items()],
"not_applicable":[{"property":p,"reason":r} for p,r in na.items()],
"notes":"No hooks in /repo are needed: the seams are the global allocator, the public Bits/FixedStorageType traits, fmt::Write, Hasher, and the CPU trap flag. Changes to /repo are five fix: commits (known-findings.txt)."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
