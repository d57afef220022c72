#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS: one line per repaired defect ('fixed:' lines suppress nothing) and per recorded one ('finding:' lines)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
 "ff5d3c1": ("P04 P05", "Go v1 varint readers indexed past the end of truncated input and panicked"),
 "a10bafd": ("P05", "Go v1 accepted varints whose value overflows the type and returned the low bits"),
 "a831cc2": ("P01 P05 P08", "Go v1 Bytes(b) with a scratch slice longer than the payload returned the scratch's tail too"),
 "e83d6eb": ("P05", "Go v1 Bool accepted any payload byte"),
 "f97d09a": ("P04 P05", "Go v2 varint readers indexed past the end of truncated input and panicked"),
 "6322f6c": ("P05", "Go v2 accepted varints whose value overflows the type"),
 "495b04d": ("P01", "Go v2 encoder dropped the fifth length byte of payloads of 2^28 bytes and more"),
 "acb8b72": ("P01 P02 P03 P08 P09", "Go v2 buffer made from a slice with spare capacity lost writes"),
 "2106e2d": ("P05 P06 P13", "Rust decoder consumed bytes when an array, map or error of another kind was present"),
 "7b293be": ("P05 P06", "Rust decode_u16 and decode_u64 reported another type's error"),
 "b2ab134": ("P07", "Rust decoder allocated a declared payload length before checking the input"),
 "8deef9d": ("P05 P13", "Rust decoder accepted varints whose value overflows the type"),
 "d824e9b": ("P05 P13", "Rust decode_bool accepted any payload byte"),
 "1042f58": ("P01 P03 P04 P05 P06 P08 P13", "C polyglot_decode_none set no status and crashed on a null decoder"),
 "1950fce": ("P01 P03 P04 P05 P06 P07 P08 P13", "C polyglot_free_decode_bytes leaked the payload"),
 "7540215": ("P13", "C polyglot_encoder_size left the status unset on success"),
 "fb29897": ("P13", "C string and error encoders crashed on a null string"),
 "16a508d": ("P01 P02 P03 P08 P09 P12", "TypeScript encoder reserved too little room and dropped bytes at the end of its buffer"),
 "d967d34": ("P01 P02 P03 P09", "TypeScript encoder over a subarray wrote at the start of the underlying buffer"),
 "0931c04": ("P01 P03 P05 P06 P08", "TypeScript uint16 reader read two varint bytes only"),
 "be1dbfe": ("P01 P03", "TypeScript decoder dropped a leading byte order mark of strings"),
 "86ab279": ("P04 P05 P06", "TypeScript decoder consumed bytes when an array, map or error of another kind was present"),
 "d560f75": ("P04 P05", "TypeScript decoder returned values made of missing bytes on truncated input"),
 "45d4dcb": ("P04 P05", "TypeScript decoder accepted varints whose value overflows the type"),
 "bc10ab9": ("P05", "TypeScript boolean reader accepted any payload byte"),
 "5391583": ("P14 P20", "the version's newline broke the header comment: no generated Go file parsed"),
 "c25a749": ("P14", "generated Go files that declare no messages did not compile (unused imports)"),
 "9df0764": ("P14", "generated Go code for repeated enums did not compile"),
 "40db7f3": ("P14", "generated Go code for repeated bytes and map<_, bytes> did not compile"),
 "34e012f": ("P14", "generated Go code for messages whose only fields are maps or nested messages did not compile"),
 "98e52c2": ("P14 P20", "enums declared inside nested messages were not generated"),
 "8621759": ("P14 P20", "fields named encode, decode or error clashed with the generated methods"),
 "0333e27": ("P20", "enum constants were numbered by position instead of by their declared numbers"),
 "2d4a6fd": ("P18", "generated Go decoders allocated a declared list or map size before reading any element"),
 "7f6e13e": ("P15", "decoding into a used generated Go object kept nested messages and maps of the earlier message"),
 "af8a4c7": ("P15", "New...() of a v1 message that contains itself recursed until the stack overflowed"),
 "6e464b0": ("P14", "a local variable in generated Go decoders hid an enum type called <field>Temp"),
 "6f395e9": ("P19", "a TypeScript file generated after another one imported what the other one used"),
 "c20e38a": ("P17 P19 P20", "the Rust plugin overflowed its stack on recursive messages and missed imports needed by nested declarations"),
 "21f2764": ("P17 P20", "fields and enum values named like Rust keywords made the Rust plugin fail"),
 "b879f28": ("P17", "generated Rust code for repeated scalars, repeated enums and maps did not compile"),
 "87b595f": ("P22", "a Rust Generator used for several requests kept the privacy parameter of an earlier one"),
 "1c723ca": ("P14 P20", "names beginning with an underscore and something other than a letter gave invalid Go identifiers"),
 "ca17901": ("P17 P20", "fields and enum values named _ gave invalid Rust"),
 "a2a8d68": ("P14", "a proto package named like a Go keyword gave an invalid package clause"),
 "f7fb9d4": ("P17 P22", "the Rust plugins failed for types whose names are so long that rustfmt cannot wrap the lines that use them"),
 "cbd05d6": ("P20", "fields named like TypeScript reserved words, constructor or encode gave TypeScript modules that do not parse"),
 "6714601": ("P04 P05 P07", "Go v1 and v2 decoders panicked on byte and text lengths beyond 2^31 in 32-bit programs"),
 "8b7bb9a": ("P08", "the TypeScript decoder over a Node.js Buffer returned byte arrays that were views of it"),
 "5f8bf78": ("P23", "generated Rust files began with the warnings that rustfmt printed, for instance about its configuration file"),
 "c698952": ("P17", "generated Rust decoders reserved a declared list size before reading any element"),
}
FINDINGS = [
 "property=P14 case=known/GoTogether/nil-error-per-file.json the generated Go code of two schema files in one Go package does not compile together: each file declares NilDecode (v1) or ErrDecodeNil (v2)",
 "property=P18 case=known/RustMalformed/deep-recursion.json generated Rust decoders recurse without limit: 6 MB of a message nested in lists of itself a million deep overflow the stack and end the process",
 "property=P18 case=known/GoMalformed/begins-with-itself.json the generated Go decoder of a message whose first encoded field is itself (message Self { Self self = 1; }) recurses for ever on empty input",
 "property=P18 case=known/GoMalformed/empty-elements.json elements of a list of field-less messages take no bytes, so a list header of 6 bytes makes the generated Go decoder build as many of them as it declares",
 "property=P18 case=known/GoMalformed/deep-recursion.json generated Go decoders recurse without limit: 40 MB of a message nested in itself 20 million times overflow the goroutine stack and end the process",
]
out = ["# finding: property=<id> case=<file under /verif> <what fails>   -- recorded, reported as KNOWN-FINDING on every run",
       "# fixed: property=<id> <commit> <what failed>                    -- repaired in /repo; suppresses nothing"]
for c, (ps, what) in FIXED.items():
    for p in ps.split():
        out.append("fixed: property=%s %s %s" % (p, c, what))
for l in FINDINGS:
    out.append("finding: " + l)
open(os.path.join(HERE, "KNOWN_FINDINGS"), "w").write("\n".join(out) + "\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "129e4c7..HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()
print("commits without a line:", [c for c in log if c not in FIXED], "lines without a commit:", [c for c in FIXED if c not in log])
