"""Writes MANIFEST.json from the checks."""
import importlib, json, pathlib, sys
R = pathlib.Path(__file__).resolve().parent.parent
T = {
 "dfs": "bounded exhaustive exploration of call histories and splits of the real code against an independent reference model, compared step by step",
 "grid": "exhaustive enumeration of a bounded configuration grid on the real code, each measured behaviour against the specification",
 "enum": "bounded exhaustive enumeration of configurations and input words on the real code against a closed form reference",
 "seq": "bounded exhaustive enumeration of operation sequences on the real code against an explicit state reference model",
 "sched": "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler",
 "fault": "exhaustive enumeration of server fault sequences and request parts on the real client over a scripted loopback server",
}
K = dict(C01="dfs",C02="dfs",C03="seq",C04="grid",C05="grid",C06="grid",C07="dfs",C08="dfs",C09="dfs",C10="dfs",C11="dfs",C12="dfs",
 C13="enum",C14="dfs",C15="enum",C16="enum",C17="enum",C18="enum",C19="enum",C20="enum",C21="seq",C22="seq",C23="seq",C24="seq",
 C25="seq",C26="sched",C27="sched",C28="fault",C29="seq",C30="seq")
sys.path.insert(0, str(R))
checks = []
for p in map(json.loads, (R / "properties.jsonl").read_text().splitlines()):
    i = p["id"]
    m = importlib.import_module(f"mc.checks.{i.lower()}")
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=T[K.get(i, "seq")], level=m.LEVEL,
        level_note="Complete within the stated bounds, on the real code; nothing beyond them. " + m.RULE + " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."))
M = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
 notes="No hooks: the checks import the unmodified code of /repo (PYTHONPATH) and control it from outside (settrace scheduler, lock and stream stand-ins, scripted server).")
(R / "MANIFEST.json").write_text(json.dumps(M, indent=1) + "\n")
