"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "stateful model-based property testing (rapid) against a position->value map",
    "C02": "property-based testing (rapid) of iteration and mapping histories against a dense model",
    "C03": "property-based testing (rapid) of extraction and construction against a dense model",
    "C04": "stateful property-based testing (rapid): drawn writes to results and sources, snapshots as oracle",
    "C05": "property-based testing (rapid): pairs equal or different by construction",
    "C06": "property-based testing (rapid) against entrywise model arithmetic",
    "C07": "property-based testing (rapid) against a triple-loop product, with metamorphic identities",
    "C08": "property-based testing (rapid): transposition against a dense model, involution",
    "C09": "differential property-based testing (rapid): masked run against unmasked run",
    "C10": "property-based testing (rapid) with recorded operator calls",
    "C11": "property-based testing (rapid) against pattern intersection and union",
    "C12": "property-based testing (rapid) against an ordered fold, with drawn yields and the race detector",
    "C13": "property-based testing (rapid) of operator formulas and monoid folds",
    "C14": "property-based testing (rapid) of invalid arguments with before/after snapshots",
    "C15": "differential property-based testing (rapid): Strassen against the triple loop, race detector",
    "C16": "property-based testing (rapid) against exact rational elimination",
    "C17": "property-based testing (rapid) against the definitions of both predicates",
    "C18": "property-based testing (rapid): drawn graphs against a queue-based search",
    "C19": "property-based testing (rapid) of an order relation on drawn triples",
    "C20": "property-based testing (rapid) with cancellation injected at drawn polls",
    "C21": "fault injection in property-based testing (rapid): cancellation at drawn steps",
    "C22": "generated concurrent histories (rapid) with a linearizability search and the race detector",
    "C23": "generated concurrent readers (rapid) under the race detector, differential against sequential runs",
    "C24": "differential property-based testing (rapid): aliased output against separate output",
    "C25": "stateful model-based property testing (rapid) against a slice",
    "C26": "stateful property-based testing (rapid) of context trees against their parents",
    "C27": "stateful property-based testing (rapid) of registrations over all formats and types",
    "C28": "property-based testing (rapid) of call sequences with injected cancellations; goroutine dumps as oracle",
    "C29": "stateful model-based property testing (rapid): programs over a pool of matrices against arrays",
    "C30": "differential property-based testing (rapid): user-defined formats with arbitrary enumeration order against arrays",
    "C31": "stateful model-based property testing (rapid): histories on huge sparse shapes against a map",
    "C32": "fault injection in property-based testing (rapid): callbacks that panic at drawn uses, against arrays",
    "C33": "model-based property testing (rapid) of drawn nestings of library uses inside callbacks, against arrays and runs without nesting",
}
NOTE = ("Search of generated cases, not proof: the property held on every case of the run (counts, classes and "
        "samples in the evidence file); trusts the Go toolchain, package rapid and the model in harness/vh. ")
EXTRA = {
    "C12": "Schedules are those of the Go scheduler, varied by drawn yields and processor counts.",
    "C21": "Cancellation is injected at chosen polls of the context, calls of mask and operator, and from other goroutines.",
    "C22": "Schedules are sampled, not enumerated; histories are short enough for a complete linearizability search.",
    "C23": "Schedules are sampled; the race detector reports unordered accesses that occurred in them.",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                       technique=TECH[i], level="exploration", level_note=NOTE + EXTRA.get(i, "")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=[],
         notes="No hooks are needed. Replay a violation with: python3 check.py --replay FILE")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
