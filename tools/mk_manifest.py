import json
notes={
"C01":"solo-versus-interleaved comparison of every result plus conflict detection on every shared access",
"C02":"readers of one document under a statement-level scheduler; results against a model, against a solo run, and conflict detection",
"C03":"multi-caller edit histories against an insertion-ordered dictionary model",
"C04":"multi-caller edit histories against a plain-list model",
"C05":"edits on original and clones by different callers at once against independent models, with conflict detection",
"C06":"save, crash, restart and reload generations over simulated storage against the model; several readers at once",
"C07":"a crash at a chosen point of producing or storing the text, then a load of what is left",
"C08":"storage and transit damage injected into texts, with step budgets, soundness checks of what is accepted and undamaged loads in between",
"C09":"integer histories of any width through overwrite, clone, reload and arrays against exact integers",
"C10":"overwrite histories with values of all types against a last-write model",
"C11":"refused operations injected into edit histories against a model that ignores them",
"C12":"unsaveable values injected at any depth, failing saves and clones, later repair, against the model",
"C13":"simulated clock moved, jumped back and stalled between stores, reads, clones and reloads",
"C14":"listings held over later edits, by turns and concurrently, against their copy at the time",
"C15":"seeded hash-order decisions for every map iteration, against the native entries",
"C16":"numbers followed through edit, save, crash and reload generations and failed loads, their types against the narrowest-type rule",
"C17":"well-formed, nearly equal, malformed and non-standard texts offered again and again by several callers, between edits and restarts, each answer against what the text says and against what it is answered when loaded first",
"C18":"every saved text of edit, failure, crash and reload histories, and of callers saving at once, given to a strict independent reader and compared with the model",
"C19":"scalars rendered and read as other kinds at every point of store, clone, save, crash and reload histories by several callers, against what the value or its text says",
"C20":"values, lists and variables held over later edits by turns and concurrently, against their content at the time, with conflict detection",
}
na={}
m={"version":1,"setup_cmd":"bash check.sh setup","checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"No hooks in /repo: every check instruments a scratch copy of the current tree (tools/build.sh, sim/instr). check.sh replay FILE replays a violation. Known and fixed findings: known_findings.jsonl."}
for p,n in notes.items():
    m["checks"].append({"property":p,"quick_cmd":"bash check.sh %s quick"%p,"thorough_cmd":"bash check.sh %s thorough"%p,"technique":"deterministic simulation with fault injection: "+n,"level":"exploration",
    "level_note":"Seeded search over plans, schedules and faults on the library's real code, instrumented from the current tree; every failure is minimised and replays exactly. Not exhaustive. Trusts the instrumentation, the reference model, and holistic_common except time and hash order (IsNil/GetType are replaced by faster equivalents, compared with the originals in setup)."})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
