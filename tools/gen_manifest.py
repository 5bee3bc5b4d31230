#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(root + "/properties.jsonl")]
TECH = {
 "C01": ("stateful property-based testing with scripted candidates against an exact model", "Every emitted signature is judged by an exact big-integer model as well as by verify; scripted streams make the first candidate a chosen lattice point so that each rejection branch is taken."),
 "C02": ("model-based property testing (constructed instances on and around the bound)", "Verdict compared with an exact integer model; instances are solved backwards from the norm wanted."),
 "C03": ("stateful edit/undo histories against a model, exhaustive single-bit changes", "Histories of edits of genuine triples; exhaustive over single bits of a genuine triple and over header bytes."),
 "C04": ("property-based testing with steered random streams against an exact model", "Generated key bytes are decoded by an independent reader and all conditions checked in exact integer arithmetic."),
 "C05": ("property-based testing against exact integer algebra (GMP)", "Solver outputs checked as polynomial identities over the integers; failures checked against gcd of resultants."),
 "C06": ("differential and round-trip property testing, exhaustive over 14-bit values and headers", "Bit-by-bit model of the format; buffers lie against inaccessible pages."),
 "C07": ("differential and round-trip property testing, exhaustive over field values and headers", "Bit-by-bit model of the format; buffers lie against inaccessible pages."),
 "C08": ("differential and round-trip property testing against a bit-by-bit encoder", "Bit-by-bit model of the encoder including exact-fit and one-bit-over lengths."),
 "C09": ("grammar-based generation and coverage-guided fuzzing (libFuzzer) with a differential oracle", "Specification decoder as oracle, in-process with sanitizers for the campaign."),
 "C10": ("sanitizer-monitored property-based testing and coverage-guided fuzzing with guard pages", "AddressSanitizer, UBSan, guard pages and a CPU-time bound are the oracle."),
 "C11": ("differential property testing against a bit-exact model and high-precision arithmetic", "Given-bytes model of SamplerZ; probabilities of ber_exp and the base sampler compared at table boundaries."),
 "C12": ("generated statistical testing against the specified distribution", "Fixed seeds, thresholds beyond 7 sigma: detects distribution changes of a few per cent, not smaller ones."),
 "C13": ("exhaustive and generated checking against integer arithmetic", "Unary operations exhaustive, binary ones generated plus structured rows."),
 "C14": ("differential and metamorphic property testing against schoolbook arithmetic", "Evaluation model and schoolbook product modulo q."),
 "C15": ("differential property testing against a long-double reference transform", "Error bounds of a few ulp of the vector norm."),
 "C16": ("model-based property testing (exact G, reference LDL* tree), metamorphic signing relation", "Tree compared node by node with a long-double reference at stated relative tolerances."),
 "C17": ("differential property testing against the specification's recursive sampler with shared leaf samples", "Reference recursion over the same per-leaf integers; exact lattice membership."),
 "C18": ("differential property testing against an independent SHAKE256/HashToPoint", "Independent Keccak; steered outputs through a substitute sponge."),
 "C19": ("stateful and schedule-varying metamorphic testing, ThreadSanitizer", "Histories in varied orders and thread schedules compared with each call made alone."),
 "C20": ("model-based property testing with a substituted entropy source", "Seeds observed through an interposed std::random_device and the shim sponge."),
 "C21": ("differential property testing against 128-bit integers", "Values biased to limb and carry boundaries."),
 "C22": ("differential property testing against schoolbook multiplication over GMP", "Exact."),
 "C23": ("round-trip and differential property testing", "Exact; extents seen with guard pages."),
 "C24": ("model-based property testing (whole key generations replayed from the same stream) and generated statistical testing", "Draws are replayed by an independent sampler; acceptance judged by exact algebra, except that 'F does not fit' is taken from the library's own solver (judged by C05)."),
}
COMMON = " Exploration only: holds for the cases generated. Trusted: the reference model in harness/ref, the compilers, GMP, and the SHAKE256 stand-in in harness/shim (the sha3 submodule is empty here)."
TECH.update(json.load(open(root + "/tools/technique_extra.json")) if os.path.exists(root + "/tools/technique_extra.json") else {})
checks = []
for p in props:
    i = p["id"]
    t, n = TECH[i]
    checks.append(dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough bin/check {i}",
                       evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n + COMMON))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: harnesses include /repo/include directly with a SHAKE256 stand-in (harness/shim) for the empty sha3 submodule.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
