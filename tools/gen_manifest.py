#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = ("The program's on-chain code paths are compiled for the host and run in a model of the Solana runtime "
         "(real SPL Token processor; System and ATA programs modelled); compute and transaction-size limits are not modelled. "
         "Assurance is that of a seeded random search, not a proof.")
hist = "stateful property-based testing (generated histories against a reference model, shrinking)"
one = "property-based testing (generated single cases against a reference model, shrinking)"
T = {
 "C01": (hist, "vault >= escrow and >= sum of promises after every transaction of generated histories. "),
 "C02": (hist, "escrow == sum of claims on chain and == sum of claims tracked by the test. "),
 "C03": (hist, "backing ratio compared exactly (256-bit cross products) before/after every instruction, plus a stake-and-unstake probe. "),
 "C04": (hist + "; generated injected pool states", "every stake compared byte for byte with the reference effect. "),
 "C05": (hist + "; generated injected pool states", "every unstake compared byte for byte with the reference effect. "),
 "C06": (hist + "; generated injected pool states", "every vault outflow justified by a matured claim of the signer, once. "),
 "C07": (hist, "claim bytes compared after every transaction, and all claims redeemed in generated orders at the end of every history. "),
 "C08": (hist + "; generated single cases", "configuration bytes traced to an instruction signed by the current authority. "),
 "C09": (one + "; generated histories", "initialisation attempts with altered mints, signers, addresses compared with the reference effect. "),
 "C10": ("structure-aware fuzzing of account lists against a reference model", "success only with exactly the effect defined for the accounts given. "),
 "C11": (one + "; generated histories", "lamports, owner and size of every account compared with the reference effect; lamport conservation. "),
 "C12": (hist, "events compared with figures read from the accounts after the instruction, and decoded with the published Rust client. "),
 "C13": ("structure-aware fuzzing (program id, bytes, accounts) with crash, hang and unchanged-on-error oracles", ""),
 "C14": ("property-based testing (single-defect generation against the documented error table)", ""),
 "C15": ("property-based testing (differential against exact 256-bit arithmetic)", "Rust conversions against exact arithmetic and against the executed program. "),
 "C16": ("property-based testing (differential: the bundled JavaScript conversions against exact arithmetic and the executed program)", "js-client/src bundled on every run and executed by node on a stand-in for @solana/kit. "),
 "C17": ("property-based testing (differential: Rust and JavaScript clients against an independent derivation and the executed program)", "addresses, bumps, seeds and constants. "),
 "C18": ("property-based testing (differential: client-built instructions decoded, compared and executed)", "all generated builders, CPI structs included. "),
 "C19": ("property-based testing (round trip and differential between the on-chain and client layouts) and byte fuzzing", "accounts, instructions, events. "),
 "C20": ("property-based testing (generated ledgers and node faults served by a mock RPC sender, compared with the stored figures)", "all fetch helpers. "),
 "C21": ("property-based testing (differential and round trip: JavaScript client against the program's layouts, and against accounts, events and instructions of executed histories; fetch helpers on generated ledgers with node faults)", "js-client/src bundled on every run and executed by node on a stand-in for @solana/kit and @solana-program/token. "),
 "C25": ("property-based testing (differential: the requests of C16, C17 and C21 answered in Node and in an environment with the web's globals only)", "js-client/src bundled twice on every run and executed by node on a stand-in for @solana/kit and @solana-program/token. "),
 "C23": ("property-based testing (generated command lines, key files, ledgers and node faults; sent transactions executed and compared with the reference effect)", "ts-scripts bundled on every run and executed by node on stand-ins for @solana/web3.js, @solana/spl-token, files and process. "),
 "C24": ("property-based testing (generated ledgers and node faults; printed figures compared with the stored ones)", "ts-scripts bundled on every run and executed by node on stand-ins for @solana/web3.js, @solana/spl-token, files and process. "),
 "C22": ("property-based testing (generated attacks against a closed-form bound)", ""),
}
EXTRA = {}
p = os.path.join(here, "tools", "manifest_extra.json")
if os.path.exists(p):
    EXTRA = json.load(open(p))
NA = EXTRA.get("not_applicable", {})
HOW = {c: f"./check {c}" for c in T}
for c, v in EXTRA.get("checks", {}).items():
    T[c] = (v["technique"], v["note"]); HOW[c] = v.get("cmd", f"./check {c}")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./check setup",
 "checks": [
  {"property": c, "quick_cmd": f"{HOW[c]} quick", "thorough_cmd": f"{HOW[c]} thorough",
   "evidence_file": f"evidence/{c}.json", "technique": T[c][0], "level": "exploration",
   "level_note": T[c][1] + (MODEL if c not in EXTRA.get("checks", {}) else "")}
  for c in ids if c in T],
 "not_applicable": [{"property": c, "reason": NA.get(c, "no check built yet")} for c in ids if c not in T],
 "notes": "No hooks in /repo are needed: the program is compiled with --cfg target_os=\"solana\" by harness/rustc-wrapper.sh. "
          "./check replay <file> re-runs one recorded case.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
