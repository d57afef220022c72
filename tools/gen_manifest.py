#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("property-based testing (rapid): generated value sequences, round trip per implementation, shrinking", "Sampled value sequences; each implementation's decoder must return what its encoder was given and end at the end of the input."),
 "P02": ("property-based testing (rapid): differential of five encoders against a reference model, metamorphic over starting buffers", "Sampled sequences and buffer states; trusts the 300-line reference encoder in harness/ref."),
 "P03": ("property-based testing (rapid): differential, every encoder's bytes through every decoder", "All ordered pairs of the five implementations on sampled sequences."),
 "P04": ("structure-aware fuzzing (rapid): hostile inputs and read scripts with process, time and memory-safety (ASan) oracles", "Sampled inputs; a crash, hang or out-of-bounds read in any implementation is observed, not predicted. Go also as a 32-bit program, Rust also optimised."),
 "P05": ("structure-aware fuzzing (rapid) against a strict reference decoder; every truncation point of generated encodings", "Sampled inputs; trusts the reference decoder; where the documentation is silent (over-long varints, text that is not UTF-8 in TypeScript) both outcomes are allowed."),
 "P06": ("property-based testing (rapid): generated mixes of matching and mismatching reads against a reference decoder", "Sampled scripts, with all pairs of kinds reached."),
 "P07": ("property-based testing (rapid): hostile declared lengths with measured allocation as oracle", "Allocation is measured in the process under test; bound 4 bytes per input byte plus 64 KiB. Go also as a 32-bit program, Rust also optimised."),
 "P08": ("property-based testing (rapid): metamorphic, inputs and values are overwritten and results re-read", "Sampled values, scratch slices and mutations."),
 "P09": ("stateful property-based testing (rapid): buffer operation histories against a byte-slice model", "Sampled histories up to a few dozen operations."),
 "P10": ("stateful property-based testing (rapid): pool histories against a model, concurrent histories under the race detector", "Sampled histories and schedules."),
 "P11": ("property-based testing (rapid): concurrent workloads against their sequential results, Go race detector and AddressSanitizer as monitors; stateful: several codecs taking turns in a generated order against a model", "Sampled interleavings; between threads the schedule is the operating system's, within one thread it is generated."),
 "P12": ("property-based testing (rapid): round trip of error values, relational oracle for errors.Is", "Sampled messages and sequences."),
 "P13": ("stateful property-based testing (rapid): C API call histories against a model, AddressSanitizer and LeakSanitizer as monitors", "Sampled legal histories, null arguments in every position; debug and release builds of the bindings."),
 "P14": ("property-based testing (rapid): generated schemas, generated code type-checked with go/types", "Sampled schemas up to a few dozen fields; the type checker's verdict stands for the compiler's."),
 "P15": ("property-based testing (rapid): generated schemas and values, round trip through compiled generated code", "Sampled schemas and values; objects are fresh or used before. 64-bit and 32-bit programs."),
 "P16": ("property-based testing (rapid): generated schemas and values, differential of v1, v2 and a schema-directed reference codec", "Sampled schemas and values; trusts harness/schema's reference codec."),
 "P17": ("property-based testing (rapid): generated schemas and values, differential of compiled generated Rust against the reference codec and generated Go", "Sampled schemas and values; num_enum is a stand-in with the same trait."),
 "P18": ("structure-aware fuzzing (rapid): mutated and truncated messages through compiled generated code against a reference decoder", "Sampled schemas and inputs, every truncation point of sampled messages; allocation measured."),
 "P19": ("property-based testing (rapid): metamorphic over repeated runs, groupings and orders of generated schemas", "Sampled sets of up to four files, all six plugins."),
 "P20": ("property-based testing (rapid): generated schemas, declared identifiers compared with a naming oracle", "Sampled schemas; Go through go/types, Rust through a parser for the emitted declarations, TypeScript (declarations and imports only) through the TypeScript parser."),
 "P22": ("stateful property-based testing (rapid): histories of requests to embedded generators against fresh ones; generated code with custom code compiled and round-tripped", "Sampled histories of up to six requests over up to six objects; custom code is one fixed pair that marks every message."),
 "P23": ("property-based testing (rapid): fault injection around the plugins (rustfmt stand-ins, broken standard streams) against the undisturbed run; structure-aware fuzzing of requests, protobuf's own library as oracle of what must be refused", "Sampled schemas, faults and defects. Refusal of requests that the library finds ill-formed and of groups is judged, not how the error reads."),
 "P24": ("property-based testing (rapid): generated streams repeated up to 1.2 million values; measured allocation against a linear bound, bytes against the repeated reference encoding, a processor-time limit some 30 times the usual cost", "Sampled streams. Constant factors are not judged: the bounds are 16 bytes per encoded byte plus 32 (encoding) or 256 (decoding) per value plus 64 KiB, and 60 s of processor time."),
}
NA = {
 "P21": "The TypeScript generator emits code for a functional encoding API that the TypeScript library in this repository does not have (its Encoder and Decoder are classes), so no generated module can work and there is no behaviour to test by generated inputs; recorded in DESIGN.md. What the TypeScript plugin does guarantee is part of P19 (one output per file, determinism, independence) and P20 (declared classes, accessors, types, enums and their numbers).",
}
CLAIMED = os.environ.get("CLAIMED", "").split() or [p for p in T if p not in NA]
for p in T:
    if p not in CLAIMED:
        NA[p] = "under construction"
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "Every check rebuilds from /repo's working tree (content-keyed caches under /verif/.build). A failing case is shrunk and written to /verif/replays; 'python3 run.py <id> --replay <file>' runs it alone. No hooks in /repo are needed."}
for p in CLAIMED:
    t, n = T[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
