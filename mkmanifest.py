#!/usr/bin/env python3
# Writes MANIFEST.json; DONE maps a property to its level note.
import json
COMMON = ("Symbolic execution of the functions' go/ssa form and of the linked binary's machine code, regenerated from "
          "/repo on each run; every obligation is decided by an SMT solver (z3) for all values within the bounds in the evidence file; "
          "counterexamples are replayed on the real code. Trusted: the instruction and SSA semantics in engine/, the Go compiler for the Go parts, z3. ")
T = "solver-based symbolic execution of Go SSA and machine code (SMT)"
N = {
 "C01": "All values; every n up to 131 (thorough 300), 20 (thorough 45) larger n up to 5000, n next to integer constants in the code, and 65541 (thorough up to 131079); above 2100 (thorough 5100) only the last 9 values are free.",
 "C02": "All values and prev; every n up to 131 (thorough 300), 20 (thorough 45) larger n up to 5000, n next to integer constants in the code, and 65541 (thorough up to 131079); above 2100 (thorough 5100) only the last 9 values are free.",
 "C03": "All control and data bytes; every n up to 131 (thorough 300), 20 (thorough 45) larger n up to 5000, n next to integer constants in the code, and 65541 (thorough up to 131079); above 2100 (thorough 5100) only the last 9 values are free.",
 "C04": "All control and data bytes and prev; every n up to 131 (thorough 300), 20 (thorough 45) larger n up to 5000, n next to integer constants in the code, and 65541 (thorough up to 131079); above 2100 (thorough 5100) only the last 9 values are free.",
 "C05": "All values and every encoder/decoder pairing; blocks complete, streams: every n up to 70 (thorough 200), nine larger n up to 1024, n next to integer constants in the code, and 65541; above 2100 only the last 9 values are free.",
 "C06": "All inputs; blocks complete, streams: every n up to 70 (thorough 200), nine larger n up to 1024, n next to integer constants in the code, and 65541; above 2100 only the last 9 values are free.",
 "C07": "Complete for the block functions (no loops): all values, prev and output contents.",
 "C08": "Complete for the block functions (no loops): all control values, data bytes and prev.",
 "C09": "All values and contents; counts 0..4 and every count from 5 to 2^30+4.",
 "C10": "Every memory access of Go and assembly code is an obligation; every n up to 131 (thorough 300), 20 (thorough 45) larger n up to 5000, n next to integer constants in the code, and 65541 (thorough up to 131079); above 2100 (thorough 5100) only the last 9 values are free.",
 "C11": "Every memory access of Go and assembly code is an obligation; every n up to 131 (thorough 300), 20 (thorough 45) larger n up to 5000, n next to integer constants in the code, and 65541 (thorough up to 131079); above 2100 (thorough 5100) only the last 9 values are free.",
 "C12": "State after the call compared with the state before it, for all inputs; every n up to 70 (thorough 200), nine larger n up to 1024, n next to integer constants in the code, and 65541; above 2100 only the last 9 values are free. A write that restores the old value before returning is not seen.",
 "C13": "Slices of every length 0..255 with 0..255 spare elements; all values, control values, data bytes and prev; every count for the partial-group functions.",
 "C14": "Complete: every control byte, 16-bit control and mask position.",
 "C15": "Every combination of the CPU feature flags the library reads; block functions complete, streams: every n up to 70 (thorough 200), nine larger n up to 1024, n next to integer constants in the code, and 65541; above 2100 only the last 9 values are free; an instruction's extension comes from a table by encoding and mnemonic.",
 "C16": "arm64 and 386: type-checked, exported API compared with amd64, GetMode, blocks, partial groups and size functions complete, streams: every n up to 70 (thorough 200), nine larger n up to 1024, n next to integer constants in the code, and 65541; above 2100 only the last 9 values are free; varint lists 0..4. Other architectures: only that they build from the same files (an architecture with its own files is executed too); byte order is outside the claim.",
 "C17": "Generators run as they are; every kernel for all arguments (32-byte and 96-byte slices) and every table byte compared symbolically.",
 "C19": "Every sequence of results of the random source; Delta lists 0..40 (thorough 0..130) and larger ones to 1025; SortUint32 0..6 / 0..7 arbitrary values, and lists of 7..100 values in four arrangements with one arbitrary value; GenUint32 0..8 / 0..20 and larger ones to 257 (every byte length possible at every position up to n = 8, at five positions beyond).",
 "C20": "The operating system is modelled, the standard library executed; free bytes before, in and after the section 0..40/30/40 (quick), 0..150/100/150 (thorough); every sequence of up to 4 (quick), 5 (thorough) input lines, and longer runs (40, 120 lines) in a fixed order of kinds. I/O errors are outside the claim.",
 "C18": "All values and prev; Put lists 0..24 (thorough 0..64), Get lists 0..6 (0..8); lists of 7..40 (70) and larger ones to 1025 with the last 3 values arbitrary and the others fixed; lists of 1..64 (130) and larger ones with fixed encoded lengths and arbitrary values.",
}
PENDING = {f"C{i:02d}": "check not built yet" for i in range(13, 21)}
checks = []
for p in sorted(N):
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                   "technique": T, "level": "model_checking", "level_note": COMMON + N[p]})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(PENDING.items()) if p not in N],
     "notes": "No hooks in /repo: it carries only fix: commits (known-findings.txt)."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
