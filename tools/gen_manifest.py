#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("full exchanges under scripted randomness, equality monitor", "exploration", "sampled and adversarially aligned randomness, all four parameter sets"),
 "C02": ("differential monitor against an executable model", "exploration", "byte-exact oracle on sampled and edge-case randomness"),
 "C03": ("differential monitor against an executable model", "exploration", "byte-exact oracle on honest and arbitrary public keys"),
 "C04": ("differential monitor against an executable model, crafted keys", "exploration", "byte-exact oracle on genuine, altered and crafted inputs"),
 "C05": ("acceptance monitor with re-encryption oracle, crafted keys", "exploration", "near-miss ciphertexts violating one condition each"),
 "C06": ("algebraic invariant monitor on emitted key bytes", "exploration", "relations evaluated on every generated key pair"),
 "C07": ("sampled polynomials recovered from outputs, compared with the specified map", "exploration", "edge-case random bytes incl. ties and correlations around zero"),
 "C08": ("lock-step state machine monitor of the generator", "exploration", "histories and constructed states in three builds"),
 "C09": ("fault injection at every request of the random source", "fault_enumeration", "operation x request x mode x parameter set complete; contents sampled"),
 "C10": ("fresh-process reference results vs histories, nesting, threads; ThreadSanitizer", "exploration", "sampled histories and schedules"),
 "C11": ("overflow-checked, debug and release builds under hostile inputs", "exploration", "completion and bounded CPU time per call"),
 "C12": ("AddressSanitizer, memcheck, Miri, library precondition checks", "exploration", "instrumented runs of all operations"),
 "C13": ("memcheck as secret-taint tracker", "exploration", "all operations with tainted secrets on unoptimised code"),
 "C14": ("differential monitor across builds; foreign targets under Miri", "exploration", "eight native builds, 32-bit and big-endian targets interpreted"),
 "C15": ("build and run every feature subset, compare with specification", "exploration", "all 16 subsets"),
 "C16": ("known-answer program run on generated and corrupted files", "exploration", "model-written files, minimal corruptions"),
 "C17": ("decode/re-encode monitor on emitted bytes, dirty buffers", "exploration", "every field of every emitted object"),
 "C18": ("metamorphic collision monitor over near-identical calls", "exploration", "neighbourhoods differing in one byte or bit"),
 "C20": ("breakpoints on every division, operands compared between secrets", "exploration", "all operations on unoptimised code, several secrets per public input"),
 "C21": ("value-semantics monitor over pairs of generator states", "exploration", "equal and nearly equal pairs, copies under requests and reseeds"),
 "C19": ("system-call filter, accounting allocator and painted stack around every call", "exploration", "all operations, genuine and hostile inputs, optimised and debug builds"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "checks": [{
   "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
   "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": T[i][1], "level_note": T[i][2]} for i in ids],
 "not_applicable": [],
 "notes": "No hooks in the repository are needed: random source, inputs and generator state are all reachable through the public interface. The tier is taken from VERIF_TIER.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
