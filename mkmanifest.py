#!/usr/bin/env python3
# Regenerates MANIFEST.json.
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: seeded search over simulated executions"
NOTE = {
 "C01": "Sampled evidence over the corpus of the repository's rule tests, generated programs and their mutants; the reference is the same tool on each unit alone, so an error common to the unit alone and the batch is not seen here. Address-order effects are provoked by a seeded allocator; libclang's own state is real.",
 "C02": "Sampled evidence; the reference is the run with every rule library loaded. Rules whose parameter was changed are exempt from comparison for that parameter. Enabling and disabling one rule at once is not generated (the documentation does not say which wins).",
 "C07": "Sampled evidence; what is covered by a comment or annotation is decided on the text by a separate reader (sim/props/c07.py), positions of findings come from the same tool without suppression. #line and comments inside macros bodies spread over lines are not generated; findings of LongLine on the first and last line of an annotated range are not judged.",
 "C08": "Sampled evidence over the system calls a fault-free run makes for its inputs. When the compilation database cannot be loaded, or a response file cannot be read, a message on standard error counts as visible (the run continues without flags, as documented by that message).",
 "C10": "Sampled evidence: memory placement, fill, recycling, stack position, inode numbers, times, unrelated environment and files, transfer sizes and clocks are varied; address randomisation of the libraries themselves is fixed.",
 "C03": "Sampled evidence: every explored run's report decoded to exactly the findings the scripted rules injected. Trusts the simulated libc, the strict report readers (sim/reports.py) and that scripted rules use the same interface as real ones; text is valid UTF-8.",
 "C04": "Sampled evidence over fault sequences at the report's own system calls (every operation the fault-free run performs on the destination is a candidate) and elsewhere, plus allocation failures and kills. A kill during reporting may leave a partial file: only runs that end with a claiming status are held to completeness.",
 "C05": "Sampled evidence: statuses compared with a model of the documented contract in each failure situation, and with the report's own content under injected faults. Allocation failure is excluded (the compiler library aborts on it by design).",
 "C06": "Sampled evidence against a small executable model of the layering; malformed YAML is not specified and not generated. Unreadable layers must act exactly like missing ones or end the run.",
 "C09": "Sampled evidence over directory contents, listing orders and loader faults. Reporter entries listed after the chosen one may or may not be loaded; a missing rule directory counts as one without entries.",
 "C12": "Sampled evidence against a small path resolver over the world's directory tree. Source paths with backslashes are not generated (libclang takes them for separators). Under injected faults only containment is judged: nothing but the requested output is changed and nothing that belongs to another directory is used.",
 "C14": "Sampled evidence over compositions of about thirty marked code fragments; expectations come from the marks and a small model of the warning options, not from the tool. Semantic warnings in units with hard errors are not judged (the compiler itself may leave them out). Diagnostics of command-line parsing go to standard error and are not compared.",
 "C13": "Sampled evidence over generated compilation databases; probe declarations in the units tell defines, include paths, language level, optimisation and directory of each analysis; flag effects are modelled from the compiler's documentation, for about a hundred flags. Commands that do not compile (-E, -M) are not generated.",
 "C17": "Sampled evidence over several hundred unusual constructs, the corpus, generated programs and mutants of all of these; which units the compiler accepts is taken from a run of the same tool with one scripted rule, which must also be the last to see every unit when all rules run. Released (assertion-free) compiler libraries: a misuse of an AST node that happens to read valid memory goes unnoticed unless it changes places or the end of the run.",
 "C18": "Sampled evidence: live heap bytes, descriptors and mapped bytes are read from the simulator at the first touch of each unit; up to 4 KB per unit, 500 bytes per finding and 16 KB per batch may stay. Leaks below that are not seen. Global analysis keeps successfully compiled units by design; only descriptors are judged there.",
 "C19": "Sampled evidence with scripted rules: exact comparison of every generated file with a model of the documentation layout. The texts of the real rules are constants and are not judged.",
 "C11": "Sampled evidence; time zones are POSIX strings (zone files are outside the simulation), clocks stay within 64-bit nanoseconds.",
}
NA = {
 "C15": "Metric values are a pure function of one function body: no schedule, clock, fault, I/O or history enters, so simulation has nothing to vary (the guide's not-applicable case). History and memory effects on metric-based findings are decided under C01 and C10.",
 "C16": "Whether a rule's pattern matches a construct is a pure function of the source text with the rule's documentation as oracle; no nondeterminism or fault is involved. What simulation can vary around a rule (history, other rules, memory, suppression) is decided under C01, C02, C07 and C10.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE and os.path.exists(os.path.join(HERE, "sim/props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 sim/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 sim/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: libc, the heap and the dynamic loader are the seams. Replay a violation with: python3 sim/check.py --replay FILE"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
