import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
PY="/opt/venv/bin/python"
NOTE={
"C01":"Seeded line-level interleavings of 2-4 simulated threads over enable/disable scopes and set calls, judged against a sequential model of nested scopes.",
"C02":"Real library calls under seeded schedules and cache states, verdicts/sums compared with the reference model under the explicit choice.",
"C03":"Histories of scopes, sets and exceptions by several simulated threads, results compared with the reference model under the default in force.",
"C04":"Interleaved, abandoned, closed and killed iterators, every yielded entry compared with the reference enumeration and paths.",
"C05":"Interleaved accumulations with injected callback failures, triples and recorded calls compared with reference sums.",
"C06":"A simulated worker pool with loss, duplication, reordering and interrupts of grid pieces; assembled maps compared with per-cell reference sums.",
"C07":"The same keyed operation executed at different points of different seeded histories, schedules, processes and hash seeds must agree; keys received by callbacks must be distinct.",
"C08":"Trials made to fail numerically at seeded steps; result compared with the recorded trials of the real optimiser.",
"C09":"Simulated streams (short reads, errors, truncation, corruption, racing readers); result compared with a reference GeoJSON reader.",
"C10":"Histories of edits by interleaved callers with failing filters and interrupts over shared scene versions; every version re-compared with a plain dict/list model.",
"C11":"Asynchronous interrupts at seeded library lines and exceptions at seeded callback calls; state compared before/after, later calls compared with the reference and undisturbed runs.",
"C12":"Seeded line-level interleavings of concurrent calls over shared objects, including concurrent compilation; results compared with the reference and with running alone.",
"C13":"Histories of plot/remove/replot by interleaved clients over recording and real matplotlib axes with failing custom objects.",
"C14":"Histories of calls under seeded cache evictions and compilation on/off; results compared with the reference and across cache states.",
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in NOTE:
        checks.append({"property":i,
          "quick_cmd":f"{PY} -m dst.driver check {i} --tier quick",
          "thorough_cmd":f"{PY} -m dst.driver check {i} --tier thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":"deterministic simulation with fault injection",
          "level":"exploration",
          "level_note":NOTE[i]+" Assurance: no violation on the seeds explored; trusts the reference model (dst/ref.py), the simulator (dst/sim.py), CPython, JAX and XLA."})
    else:
        na.append({"property":i,"reason":"Pure function of its inputs: no schedule, clock, fault, I/O or history can affect it, so a simulated run would only be input generation; see DESIGN.md."})
json.dump({"version":1,"setup_cmd":f"{PY} -m dst.driver setup","checks":checks,"not_applicable":na,
  "notes":"No hooks were added to /repo: the simulator uses the seams Python offers (line tracing of differt2d frames, replaced lock, callbacks, stream objects, axes). /repo commits are fixes only; see known_findings.txt."},
  open('/verif/MANIFEST.json','w'),indent=1)
