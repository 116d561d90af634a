#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
DONE = os.environ.get("DONE", " ".join(f"C{i:02}" for i in range(1, 24))).split()
T = {
 "C01": ("runtime monitoring: generated Rust code of random schemas, built with overflow checks, driven with random values through an instrumented reader and writer; online comparison with a reference model of conversion",
  "random schemas and values; every type constructor, rule, nesting and index size occurs, not every combination"),
 "C02": ("runtime monitoring: bytes of generated Rust code compared online with a reference encoder written from the README, and reference encodings fed to the generated decoder",
  "random schemas and values; the reference follows the README except for the recorded finding about [Unit]"),
 "C03": ("runtime monitoring: generated TypeScript bundled and run under node on random schemas and values, compared online with the reference encoder through every kind of buffer and view",
  "random schemas and values; node 22 only"),
 "C04": ("runtime monitoring: two versions of random schemas related by random safe changes, messages of one read by the generated code of the other; oracle computed on the values by a reference model of evolution",
  "random schemas and change sequences"),
 "C05": ("runtime monitoring: well-formed messages no serializer writes (unknown fields, other orders, non-minimal representations) fed to generated Rust and TypeScript; reference decoder as oracle",
  "random schemas and messages; only well-formed messages in the README's sense"),
 "C06": ("runtime monitoring: mutated and random bytes fed to generated decoders (overflow checks, counting allocator, endless-loop detector, strict type dumpers), with well-formed messages interleaved",
  "random; inputs of the recorded findings are probed separately and otherwise left out"),
 "C07": ("fault injection with monitors: writers and readers that cut, interrupt and fail at every (small messages) or random (large ones) positions; online check of results, bytes and errors",
  "random schemas and messages; every failure position of messages up to 40 bytes, sampled beyond"),
 "C08": ("sanitizers: generated Rust code under overflow checks, AddressSanitizer and the Miri interpreter on valid and hostile messages",
  "random schemas and messages, fewer under Miri"),
 "C09": ("runtime monitoring of the compiler: random hostile schemas generated, and a driver exercising the whole documented Rust API with exhaustive literals and patterns compiled against the output by rustc",
  "random schemas with hostile names and layouts"),
 "C10": ("runtime monitoring of the compiler: random hostile schemas generated, and typed uses (valid, exhaustive, and deliberately wrong ones) type-checked against the output by tsc --strict",
  "random schemas with hostile names and layouts; TypeScript 5.9 only"),
 "C11": ("metamorphic runtime monitoring: outputs of equivalent spellings, layouts, environments and repetitions compared byte by byte; outputs of minimally different schemas required to differ",
  "random schemas, variants and mutations"),
 "C12": ("metamorphic runtime monitoring: outputs generated before and after formatting compared byte by byte; formatted text also read back by a reference parser and compared with the model",
  "random schemas and spellings"),
 "C13": ("metamorphic runtime monitoring: formatted texts of equivalent spellings compared, reformatting, --check verdicts and file system effects observed",
  "random schemas and spellings"),
 "C14": ("runtime monitoring: comments of formatted texts, read back by a reference parser, compared with those of the model",
  "random schemas and comments"),
 "C15": ("differential runtime monitoring: the compiler's verdict on valid, mutated and arbitrary texts compared with a reference parser written from the documentation; crashes, hangs and exit statuses watched",
  "random texts"),
 "C16": ("differential runtime monitoring: verdicts on random programs over tiny name and index pools compared with a reference validator; outputs on rejection watched",
  "random programs"),
 "C17": ("runtime monitoring: entries, files, lines and underlines of real error reports compared with those a reference front end expects",
  "random programs with random faults"),
 "C18": ("runtime monitoring: random directory trees with links, odd paths and unreadable files; what was loaded compared with what the operating system would open",
  "random layouts on a real file system"),
 "C19": ("fault injection with monitors: file system calls of the real binary made to fail one at a time through an LD_PRELOAD shim; exit status and tree snapshots checked",
  "every file system call of each scenario, several errors"),
 "C20": ("runtime monitoring: pairs of names in every spelling and convention; references, duplicates, aliases and generated names compared with the reference splitting, and the results compiled",
  "random names over letters, digits, underscores and keywords"),
 "C21": ("runtime monitoring across environments: the same requests answered by generated Rust built in several editions and optimization levels and interpreted by Miri as on a 32-bit big-endian machine, and by generated TypeScript in guarded realms (browser globals only, policy without dynamic code), module formats and pipelines; reference codec as oracle",
  "random schemas and messages; platforms as listed in DESIGN.md"),
 "C22": ("runtime monitoring of histories: sessions of requests replayed in sequence, in threads (natively and under Miri's race detector with random preemption), nested in each other's readers, writers and accessors, and backwards; answers compared with the reference codec and with each other, arguments and results with copies",
  "random schemas, sessions and schedules"),
 "C23": ("runtime monitoring of resources: counting allocator and processor clock around every operation of generated code on ordinary, damaged and large messages; heap use compared with bounds computed from the value, and time with that for a sixteenth of the message",
  "random schemas and messages up to a few megabytes; time only judged by growth, repeated before it is reported"),
}
checks = []
for c in sorted(DONE):
    t, note = T[c]
    checks.append({
        "property": c,
        "quick_cmd": f"./check {c} quick",
        "thorough_cmd": f"./check {c} thorough",
        "technique": t,
        "level": "fault_enumeration" if c == "C19" else "exploration",
        "level_note": note,
    })
na = [{"property": c, "reason": "check not finished yet"} for c in sorted(T) if c not in DONE]
doc = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": na,
}
json.dump(doc, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
