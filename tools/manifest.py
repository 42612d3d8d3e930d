#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
"C01": ("generated JSON texts (grammar-based, every spelling) against a reference parser, plus exhaustive short texts", "Random and enumerated documents compared value for value with an independent reader written from RFC 8259."),
"C02": ("mutated and exhaustive short texts against a reference grammar", "Every text the reference grammar refuses must be refused, with a parse error kind; accepted texts must agree with it."),
"C03": ("hostile-input fuzzing in a watched child process", "A panic, stack overflow, abort or signal of the library is turned into a shrunk counterexample; running time is only watched, not judged."),
"C04": ("round-trip over generated values, bit-exact", "Values are generated as models and built through the public API."),
"C05": ("generated values and construction orders against a reference renderer", "Text compared with an independent renderer; different construction orders of one value compared with each other."),
"C06": ("every Unicode scalar and generated strings in generated spellings, round-trip", "All 1,112,064 scalars are enumerated in each spelling; longer strings are sampled."),
"C07": ("generated number texts and bit patterns against an exact big-integer decimal oracle", "Rounding is judged by exact integer arithmetic, not by the standard library's parser."),
"C08": ("typed round-trip over generated values of 40+ Rust types", "The documented JSON of each value is computed independently."),
"C09": ("generated mismatching values per target type", "The outcome for each pair of value and type is computed by a model of the mapping."),
"C10": ("generated and exhaustive path texts against a reference path reader", "Path texts over a small alphabet are enumerated up to a bound; longer ones are generated."),
"C11": ("generated values and paths against a reference lookup, all lookup forms", "Includes paths failing at every step."),
"C12": ("model-based sequences of sets with a frame check", "The whole value is compared with the model after every step."),
"C13": ("model-based sequences of deletions with a frame check", "The whole value is compared with the model after every step."),
"C14": ("stateful model-based histories of object edits, with every short history enumerated", "Reference model: ordered multimap."),
"C15": ("stateful model-based histories of array edits, with every short history enumerated", "Reference model: vector."),
"C16": ("generated multi-valued objects through every way in and out, against a model", "Order of duplicates is compared at every observation point."),
"C17": ("generated failing operations, value compared before and after", "Failing operations are built by construction at every step."),
"C18": ("generated programs of macro invocations, compiled and run with generated values against the reference model, with a control program made of the calls", "Both the invocations (entries, segments, argument expressions, surrounding names) and the values are generated."),
"C19": ("differential: one-shot functions against parse, operate, render", "Compared with the value-level API and with the model."),
"C20": ("generated structure definitions compiled with the derive; encoding compared with a model", "Programs are generated, compiled and run; shrinking recompiles."),
"C21": ("generated structure definitions compiled with the derive; decoding compared with a model", "Programs are generated, compiled and run; shrinking recompiles."),
"C22": ("generated structure definitions compiled with the derive", "The definitions are valid Rust (checked by compiling them without the derive)."),
"C23": ("generated items parsed and printed inside the compiler, against the generating model", "Property tests run at macro expansion time, where the parser works."),
"C24": ("generated attributes parsed inside the compiler, accessors against the generating model", "Property tests run at macro expansion time."),
"C25": ("generated quote! templates compiled into procedural macros, expanded with generated values against a token-level model", "Templates and values are generated per run."),
"C26": ("generated pairs of values and edits, equality against model equality", "Includes near-equal pairs and edits of copies."),
"C27": ("damaged token streams given to every parser inside the compiler; a panic, a crash or a hang is the violation", "Items and attributes with tokens dropped, repeated, swapped, replaced and regrouped."),
"C28": ("generated failing operations, texts and decodings; kind, message and display compared with the reference model's cause", "The message has to name the cause, its wording is free."),
"C29": ("generated @scope templates with one misplaced directive, compiled into procedural macros: expanding them has to fail", "The same template without the misplaced directive has to expand, so that what is refused is the directive."),
"C30": ("generated parts of items, and token streams joined by separators, each given alone to its parser or helper inside a procedural macro, against the model of what was generated", "Same models as C23; integers are checked against values computed from the digits drawn."),
"C31": ("the same generated input in four sizes, measuring bytes allocated (exactly) and processor time per element: a metamorphic relation between sizes", "Allocation decides alone; time counts only where it is 16 times as much for each element, and is confirmed with no other measuring, so that a busy machine raises no alarm."),
"C32": ("generated histories of calls on few texts, paths and values, made again and again, failing ones among them, in one thread and on several at once; each result against the reference model and against what the same call gave before", "Each history runs in a fresh thread with its texts in the same place of the memory. Which interleavings of threads occur is up to the machine."),
}
pending = json.load(open(os.path.join(here, "pending.json")))
checks = [dict(property=k, quick_cmd="./check " + k, thorough_cmd="env VERIF_TIER=thorough ./check " + k,
               evidence_file="evidence/%s.json" % k, technique="property-based testing: " + t,
               level="exploration", level_note=n + " Evidence, not proof: it covers the cases generated, whose number and kinds the evidence file records.")
          for k, (t, n) in T.items() if k not in pending]
m = dict(version=1, setup_cmd="./setup", checks=checks,
         not_applicable=[dict(property=k, reason=r) for k, r in pending.items()],
         notes="Every check is a pure function of /repo's tree, VERIF_SEED and VERIF_TIER. See DESIGN.md.")
open(os.path.join(here, "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
