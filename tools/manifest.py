"""Generates MANIFEST.json from the checks in props/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
TECH = {
 "C01": "model-based random histories against a sorted map", "C02": "metamorphic seek/scan search against a sorted map",
 "C03": "model-based interleaving of cursor steps and writes", "C04": "fault injection into batches with a before/after model",
 "C05": "model-based histories with restarts", "C06": "crash and power-loss injection with a prefix model",
 "C07": "crash injection into maintenance histories with a model", "C08": "metamorphic maintenance transparency histories",
 "C09": "configuration-matrix round-trip and plaintext search", "C10": "invariant over partition listings of random histories",
 "C11": "directory snapshots of random histories replayed against a model", "C12": "file mutation fuzzing against the written data",
 "C13": "model-based DDL histories with crash injection", "C14": "grammar-based and mutational command fuzzing with sanitizers",
 "C15": "model-based pipeline simulation", "C16": "model-based histories of automatic ids", "C17": "schedule fuzzing with a seeded scheduler and history oracle; ThreadSanitizer",
 "C18": "model-based drop histories with restarts and crashes", "C19": "fault injection into maintenance with a content model",
 "C20": "boundary-value generation of event sizes against memory limits", "C21": "model-based cloud histories against mock and a fake S3 server",
 "C22": "differential comparison of listings with a model and the files", "C23": "model-based open/close histories of several owners",
 "C24": "crash histories without the log against per-partition models",
 "C25": "histories under a seeded thread scheduler, obligations checked at quiescence",
 "C26": "model-based sequences of API calls around successful and failed opens; differential against the same life without the refused calls"}
FAULT = {"C04", "C06", "C07", "C19"}
NOTE = {}
checks = []
na = []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    f = os.path.join(V, "props", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    c = importlib.import_module(i.lower()).Check()
    note = "Random search, no proof: holds on the generated cases only; the Python reference model and the system-call shim are trusted. " + "; ".join(c.assumptions)
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": c.level, "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py plain asan" + (" tsan" if os.path.exists(os.path.join(V, "props/c17.py")) else ""),
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks interpose on libc calls with the linker (--wrap). known_findings.json lists recorded and fixed defects."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
