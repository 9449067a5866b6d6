"""Writes MANIFEST.json: a property whose check exists in checks/ is claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": ("output audit of generated packages (gofmt, compiler, declaration census)", "Random packages of the supported dialect and option sets; trusts the Go and C compilers."),
    "C02": ("trace oracle over executed generated calls", "Random signatures and values, executed through cgo; exact comparison with scripted values."),
    "C03": ("trace oracle over executed generated struct transfers", "Random struct definitions and values, executed through cgo; exact comparison with scripted values."),
    "C04": ("heap ledger with poisoning, AddressSanitizer and clobberfree under forced collections", "Collections forced inside calls and callbacks; what was executed, not all schedules."),
    "C05": ("trace oracle over executed callbacks", "Random callback signatures, orders and invoking threads; exact comparison with scripted values."),
    "C06": ("differential execution: Go constants against the C compiler", "Random macros, enums and const variables; trusts gcc for the C value."),
    "C07": ("reflection monitor over generated types against sizeof/offsetof", "Random type spellings; native execution for amd64, type census and cgo-free layout for 386."),
    "C08": ("output census against an independent rule interpreter", "Random name and rule sets; the interpreter is written from the documented rules."),
    "C09": ("output names against an independent rule interpreter", "Random name and rule sets; the interpreter is written from the documented rules."),
    "C10": ("repeated-run hash comparison under perturbed scheduling", "Runs with different GOMAXPROCS, race-build delays, places and environments."),
    "C11": ("race detector and exactly-once event-log checker over the helper writer", "Stress schedules with slow writers on the real generator packages."),
    "C12": ("race detector and per-thread trace oracle over concurrent generated calls", "Stress schedules; unique values per thread."),
    "C13": ("output census and executed calls against a reference model of tips", "Random tip assignments; reference model written from the documentation."),
    "C14": ("C-side object log against a reference model of accessors and raw types", "Random structs and values, executed through cgo."),
    "C15": ("fault injection on inputs and file system with an exit-status monitor", "Fixed fault classes times random mutations of valid inputs."),
    "C16": ("tree comparison of combined and separate runs", "Random lists of manifests, orders and placements."),
    "C17": ("output census and values against gcc -E on the same tree", "Random conditional headers, include trees and defines."),
    "C18": ("comment and directive monitor over the output", "Random texts, flags and positions; exact comparison."),
    "C19": ("trace oracle over strings with poisoning and forced collections", "Random byte strings and options, executed through cgo."),
    "C20": ("trace oracle over validated calls", "Random validation lists and outcomes, executed through cgo."),
    "C21": ("build without cgo and value comparison between modes", "Random headers of the cgo-free dialect."),
    "C22": ("trace oracle over slice lengths and capacities", "Random length fields and bounds, executed through cgo."),
    "C23": ("trace oracle over values of mapped types", "Random type maps, executed through cgo."),
    "C24": ("differential execution of library calls from Go and from C", "The libraries installed here, random rules, options and data; trusts clang for the declarations and gcc for the values."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
