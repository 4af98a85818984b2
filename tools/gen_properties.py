#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": hook}})
S = "solana-program/src/"
ESC = {"name": "escrowed_orca_amount", "meaning": "ORCA promised to unstakers and not yet withdrawn", "where": S+"state/state.rs"}
PW = {"name": "PendingWithdraw", "meaning": "one user's recorded claim (amount, maturity)", "where": S+"state/pending_withdraw.rs"}

p("C01", "Vault always covers escrowed ORCA",
  "After every transaction of every history that starts with a successful initialisation, the vault's ORCA balance is at least the escrowed amount recorded in the staking state. No mix of stakes, unstakes, withdrawals, donations, xORCA transfers or burns, cooldown changes and clock moves, by any users, makes the vault unable to pay everything it has promised.",
  ["histories", "inputs"], "all transaction histories over any number of users, amounts up to u64, any cooldown and any clock",
  "The 18 baseline tests never execute an instruction; the LiteSVM suite replays a few fixed flows. Solvency is an invariant over unbounded histories with rounding at every step.",
  [S+"instructions/stake.rs", S+"instructions/unstake.rs", S+"instructions/withdraw.rs", S+"util/math.rs"],
  [("floor rounding towards the vault", S+"util/math.rs"), ("checked escrow add/sub", S+"instructions/unstake.rs, withdraw.rs"), ("vault<escrow guards", S+"instructions/stake.rs, unstake.rs")],
  ["vault token account amount", "state account bytes 8..16"], [ESC])
p("C02", "Escrow equals the sum of outstanding claims",
  "At every point of every history, the escrowed amount in the staking state equals the exact sum of the ORCA amounts recorded in all pending-withdraw accounts that have been created by unstaking and not yet withdrawn. A rejected transaction changes neither side.",
  ["histories", "inputs"], "all histories of interleaved unstakes and withdrawals by several users and indices, including multi-instruction and aborted transactions",
  "Tests check the escrow after one or two unstakes; the equality must survive every interleaving of users, indices, re-used indices and failures.",
  [S+"instructions/unstake.rs", S+"instructions/withdraw.rs"],
  [("escrow += amount at unstake", S+"instructions/unstake.rs"), ("escrow -= amount at withdraw", S+"instructions/withdraw.rs")],
  ["state account", "every pending-withdraw account"], [ESC, PW])
p("C03", "xORCA never loses backing and round trips never profit",
  "While xORCA is outstanding, no instruction lowers the backing ratio (non-escrowed ORCA + 100) / (xORCA supply + 100). Consequently a user who stakes while xORCA is outstanding and at once unstakes what was minted is never owed more ORCA than was staked; and the backing ratio never falls below one in any history that starts at initialisation.",
  ["histories", "inputs"], "all histories and all amounts with the supply non-zero before the step",
  "Rounding direction errors show only for particular amount/backing/supply triples; tests use a handful of round numbers with tolerances.",
  [S+"util/math.rs", S+"instructions/stake.rs", S+"instructions/unstake.rs"],
  [("both conversions floor", S+"util/math.rs"), ("pre-instruction balances used for both conversions", S+"instructions/stake.rs, unstake.rs")],
  ["vault amount", "escrow", "xORCA mint supply"], [ESC])
p("C04", "Stake mints exactly the floor share and nothing else moves",
  "A successful stake of x moves exactly x ORCA from the staker's token account to the vault and mints exactly floor(x*(S+100)/(N+100)) xORCA to the staker's xORCA account, where N is vault minus escrow and S the xORCA supply just before (exactly x if either is zero). A stake that would mint zero, or whose amount exceeds the staker's balance, or whose result does not fit 64 bits, is rejected; every other well-formed stake succeeds. No other account, byte or lamport changes.",
  ["inputs", "histories"], "every reachable and every representable (x, vault, escrow, supply) and every staker",
  "The formula has to hold for all 64-bit quadruples; tests check a few values with the same helper the program uses.",
  [S+"instructions/stake.rs", S+"util/math.rs"],
  [("convert_orca_to_xorca", S+"util/math.rs"), ("Transfer + MintTo CPIs", S+"instructions/stake.rs")],
  ["token accounts", "mint supply", "all other accounts"], [ESC])
p("C05", "Unstake burns exactly and records the exact claim",
  "A successful unstake of x burns exactly x xORCA of the unstaker, moves no ORCA, raises escrow by exactly w = floor(x*(N+100)/(S+100)) and creates the unstaker's pending-withdraw account for the given index recording that unstaker, index, w, its canonical bump and maturity = now + current cooldown. Unstakes with w = 0, amount above the balance, an index still in use, an overflowing maturity or an overflowing result are rejected; every other well-formed unstake succeeds. Nothing else changes except rent paid by the unstaker.",
  ["inputs", "histories"], "every reachable and representable (x, vault, escrow, supply, cooldown, clock, index), every unstaker",
  "All 256 indices, 64-bit amounts, cooldown/clock combinations and prior states cannot be sampled by fixed tests.",
  [S+"instructions/unstake.rs", S+"state/pending_withdraw.rs", S+"util/math.rs", S+"util/account.rs"],
  [("convert_xorca_to_orca", S+"util/math.rs"), ("Burn CPI + PDA creation + record", S+"instructions/unstake.rs")],
  ["token accounts", "state account", "pending-withdraw account bytes"], [ESC, PW])
p("C06", "Only the owner withdraws a matured claim, exactly once",
  "ORCA leaves the vault only when the signer recorded in a pending-withdraw account withdraws that index at or after its recorded maturity, and then exactly the recorded amount goes to that signer's ORCA account, escrow falls by it and the claim account is closed (emptied, lamports refunded to the signer). No claim is ever paid twice, also not by repeating the withdrawal in one transaction, reviving the closed account's lamports or re-using the index; every matured, well-formed withdrawal succeeds.",
  ["histories", "inputs", "schedules"], "all histories, all clock positions around maturity, all users and indices, all multi-instruction transactions",
  "Tests try a withdrawal just before and just after one maturity; double payment needs specific instruction sequences inside one transaction or across index re-use.",
  [S+"instructions/withdraw.rs", S+"util/account.rs"],
  [("maturity check", S+"instructions/withdraw.rs"), ("PDA bound to signer and index", S+"state/pending_withdraw.rs"), ("close to Closed/empty/system-owned", S+"util/account.rs")],
  ["vault amount", "recipient amount", "pending-withdraw account"], [ESC, PW])
p("C07", "A pending claim cannot be altered or blocked by anyone",
  "From creation until its owner withdraws it, a pending-withdraw account's bytes never change and the account never disappears, whatever other users, the update authority (cooldown or authority changes), donations or clock moves do. At any time at or after its recorded maturity, and from any history, the owner's withdrawal of that claim succeeds and pays the recorded amount in full, in any order relative to other claims.",
  ["histories", "schedules"], "all histories of all other actors' transactions between an unstake and its withdrawal, and all orders of redeeming the outstanding claims",
  "Isolation and redeemability quantify over everything everyone else may do; tests have one actor and one claim.",
  [S+"instructions/unstake.rs", S+"instructions/withdraw.rs", S+"instructions/set.rs"],
  [("maturity stored at unstake, not recomputed", S+"instructions/unstake.rs"), ("escrow segregation", S+"instructions/stake.rs, unstake.rs")],
  ["pending-withdraw account bytes", "result of the owner's withdraw"], [PW, ESC])
p("C08", "Configuration changes only by the current update authority",
  "The cooldown period and the update authority change only through an instruction signed by the authority recorded at that moment; such an instruction changes exactly the addressed field to exactly the given value and no other byte of any account. Negative cooldowns are rejected, a cooldown change applies to later unstakes only, and after a rotation only the new authority is accepted.",
  ["histories", "inputs"], "all sequences of authority rotations and cooldown updates by right and wrong signers, interleaved with user operations",
  "Tests rotate once; sequences of rotations with stale, unsigned or look-alike authorities and every i64 value are not covered.",
  [S+"instructions/set.rs", S+"state/state.rs"],
  [("authority address + signer check", S+"instructions/set.rs"), ("non-negative check", S+"instructions/set.rs")],
  ["state account bytes"], [{"name": "update_authority, cool_down_period_s", "meaning": "configuration", "where": S+"state/state.rs"}])
p("C09", "Initialisation happens once, by the deployer, on sound mints",
  "The staking state comes into existence only through an initialise instruction signed by the fixed deployer and by the named update authority, with a non-negative cooldown, the genuine ORCA and xORCA mints (6 decimals each, xORCA supply zero, mint authority the state address, no freeze authority) and the canonical state and vault addresses. It then holds exactly the canonical bumps, zero escrow, the given cooldown and authority, and the vault is an ORCA token account owned by the state (empty, or what others sent there beforehand: anyone can create that account first, and doing so does not block the deployment); a second initialisation never succeeds or changes anything.",
  ["inputs", "histories", "configurations"], "all mint configurations, payers, authorities, cooldowns, pre-existing account states and later re-initialisation attempts",
  "Tests vary one field at a time by hand; the space of mint/account configurations and of re-initialisation attempts in later states is a product.",
  [S+"instructions/initialize.rs", S+"util/account.rs"],
  [("deployer check, mint checks, system-owned/empty checks", S+"instructions/initialize.rs")],
  ["state account bytes", "vault account", "transaction result"])
p("C10", "Substituted or under-privileged accounts are never accepted",
  "For every instruction, replacing any account by another one (another user's account, a look-alike with forged contents, a different mint, program, PDA, index or vault, or a duplicate of another slot), dropping accounts, or clearing a signer or writable flag never lets the instruction succeed with an effect the signer was not entitled to: it either fails with no effect or has exactly the effect defined for the accounts actually given.",
  ["inputs", "configurations"], "all single and multiple substitutions from a pool of adversarial accounts in all reachable states, for all five instructions",
  "Tests forge one account at a time for selected slots; the attack space is slots x forgeries x flags x states, including pairs.",
  [S+"assertions/account.rs", S+"instructions/stake.rs", S+"instructions/unstake.rs", S+"instructions/withdraw.rs", S+"instructions/set.rs", S+"instructions/initialize.rs"],
  [("owner/address/seeds/discriminator/role assertions", S+"assertions/account.rs")],
  ["transaction result", "whole-bank diff"])
p("C11", "Pre-funding cannot block account creation; rent is accounted",
  "Sending any number of lamports to a not-yet-created state or pending-withdraw address never prevents its creation, nor does creating or funding the vault before the deployment: the account ends rent-exempt with the exact size and owner, the payer is charged exactly the missing lamports (never more), and existing lamports are kept. Withdrawing refunds all lamports of the claim account to its owner, and no instruction creates, destroys or misdirects lamports.",
  ["inputs", "histories"], "all pre-funded amounts from 0 through above the rent-exempt minimum, for every creation in every history",
  "Tests use three pre-funding amounts; boundary amounts around the rent minimum and re-used addresses are not covered.",
  [S+"util/account.rs", S+"instructions/unstake.rs", S+"instructions/initialize.rs", S+"instructions/withdraw.rs"],
  [("create_account_secure: transfer shortfall + allocate + assign", S+"util/account.rs"), ("close_program_account", S+"util/account.rs")],
  ["lamports, owner and size of every account"])
p("C12", "Every success emits exactly one truthful event",
  "A successful stake, unstake, withdraw or authority rotation emits exactly one event whose fields equal the amounts, balances, supply, escrow, cooldown, index and authorities actually in effect after that instruction; initialise and cooldown updates emit none, and failed instructions leave none in the record of a committed transaction. The emitted bytes decode with the published event format of the Rust client to the same values.",
  ["histories", "inputs"], "all successful instructions in all histories",
  "No baseline test observes events at all.",
  [S+"event.rs", S+"instructions/stake.rs", S+"instructions/unstake.rs", S+"instructions/withdraw.rs", S+"instructions/set.rs", "rust-client/src/generated/types/event.rs"],
  [("Event::emit", S+"event.rs")], ["program data log"])
p("C13", "Arbitrary instruction bytes and accounts never crash or corrupt",
  "For any program id, any instruction bytes and any list of accounts with any contents, the program returns success or an error code without panicking or aborting; bytes that are not a complete known instruction are rejected, a wrong program id is rejected, and a rejected instruction leaves every account unchanged.",
  ["inputs"], "arbitrary byte strings as instruction data and arbitrary account lists (count, size, contents, owners, flags, duplicates)",
  "Robustness against arbitrary input is universal; tests send only well-formed data.",
  [S+"entrypoint.rs", S+"instructions/mod.rs", S+"assertions/account.rs", S+"state/mod.rs"],
  [("borsh decoding with mapped errors", S+"entrypoint.rs"), ("length and discriminator assertions before zero-copy casts", S+"assertions/account.rs")],
  ["return code", "whole-bank diff"])
p("C14", "Each rejection reports its documented error code",
  "When an otherwise valid instruction has exactly one defect, the program fails with the documented error code for that kind of defect (insufficient funds, zero result, cooldown active, wrong authority address, missing signature or write permission, wrong seeds, wrong owner, wrong data, missing accounts, already initialised, unauthorised deployer, negative cooldown, overflow, insufficient escrow or backing, unknown instruction, wrong program id). The Rust client's error enumeration assigns every such code the same name and rejects unknown codes.",
  ["inputs", "histories"], "all valid instructions in all reachable states, mutated by each single defect",
  "Tests cover selected pairs in one state; which defect is reported must not depend on amounts, users or history.",
  [S+"error.rs", S+"assertions/account.rs", "rust-client/src/generated/errors/xorca_staking_program.rs"],
  [("ErrorCode numbering", S+"error.rs")], ["custom error code of the failed instruction"])
p("C15", "Rust client conversions equal the on-chain arithmetic",
  "For every amount, backing and supply, the Rust client's ORCA->xORCA and xORCA->ORCA conversions return exactly what the program would mint or record, i.e. the exact floored quotient with both virtual offsets of 100, and fail exactly when the program would fail on overflow or on an undefined conversion. Neither ever wraps or rounds up.",
  ["inputs"], "all triples of 64-bit integers",
  "Baseline tests check five triples of the client against constants and never the program.",
  ["rust-client/src/conversion.rs", S+"util/math.rs"],
  [("duplicated formula on both sides", "rust-client/src/conversion.rs")], ["client return values", "program mint/claim amounts"])
p("C16", "JavaScript conversions equal the on-chain arithmetic",
  "For every amount, backing and supply, the JavaScript client's ORCA->xORCA and xORCA->ORCA conversions return exactly the floored quotient the program uses whenever the program accepts the conversion, with the one-to-one case for an empty pool and an error for an undefined xORCA->ORCA conversion.",
  ["inputs"], "all triples of 64-bit integers given as bigint",
  "The JS unit tests check a few constants and do not run in the baseline.",
  ["js-client/src/utils/conversion.ts", S+"util/math.rs"],
  [("duplicated formula in bigint", "js-client/src/utils/conversion.ts")], ["JS return values"])
p("C17", "Program and clients derive identical addresses",
  "For every wallet and every withdraw index 0..255, the Rust client and the JavaScript client derive the same state, vault and pending-withdraw addresses and bumps that the program requires and that it stores on chain, and all of them agree on the program, mint and deployer-independent constants. Different (wallet, index) pairs never share an address.",
  ["inputs"], "all 32-byte wallet keys and all 256 indices",
  "Baseline tests check one wallet with indices 0 and 1, in the Rust client only.",
  ["rust-client/src/pda/mod.rs", S+"pda.rs", "js-client/src/utils/index.ts"],
  [("seed lists", S+"pda.rs"), ("canonical bump search", "rust-client/src/pda/mod.rs")], ["derived addresses", "addresses the program accepts"])
p("C18", "Rust client builders produce exactly the intended instruction",
  "For every argument and account choice, the instructions built by the Rust client (argument structs, builders and CPI builders) carry the right program id, the data bytes the program decodes to the same operation and values, and the accounts in the order and with the signer/writable flags the program needs; executed on chain they have the same result as the hand-assembled instruction. Remaining accounts are appended unchanged and missing mandatory fields are refused.",
  ["inputs", "histories"], "all instruction arguments and account sets, all five instructions, all builder styles",
  "No baseline test builds an instruction with the client.",
  ["rust-client/src/generated/instructions", S+"instructions/mod.rs"],
  [("generated borsh argument structs and account metas", "rust-client/src/generated/instructions")], ["instruction bytes and metas", "execution result"])
p("C19", "Rust client decodes on-chain accounts losslessly",
  "For every state and pending-withdraw account the program can write, and every field value representable in them, the Rust client decodes exactly the stored fields, re-encodes to the identical bytes, and reports exactly the on-chain length; its JSON (serde) form also round-trips. Truncated data or invalid discriminators are rejected rather than misread.",
  ["inputs", "histories"], "all field values, all accounts produced by histories, all truncations",
  "Baseline tests check one constant value of the program's own struct, never the client against program output.",
  ["rust-client/src/generated/accounts/state.rs", "rust-client/src/generated/accounts/pending_withdraw.rs", S+"state/state.rs", S+"state/pending_withdraw.rs"],
  [("explicit padding keeps borsh == repr(C)", S+"state/state.rs, pending_withdraw.rs")], ["decoded values", "re-encoded bytes"])
p("C20", "Rust fetch helpers report exactly what is on chain",
  "Against any ledger content, the fetch helpers return the state, cooldown, vault balance, xORCA supply and exchange rate (vault minus escrow over supply) exactly as stored, and for a staker exactly the existing pending withdrawals with index below the requested limit, each decoded exactly and in index order. Missing, malformed or insolvent data yields an error, never a wrong number or a silent omission.",
  ["inputs", "configurations"], "all ledger contents: present/absent/malformed accounts, all balances, all subsets of the 256 indices, all limits",
  "Baseline tests read one fixture file.",
  ["rust-client/src/utils/mod.rs", "rust-client/src/generated/accounts"],
  [("checked_sub for insolvency, MaybeAccount filtering", "rust-client/src/utils/mod.rs")], ["return values with a mock RPC transport"])
p("C21", "JavaScript client encodes and decodes exactly what the program uses",
  "For every argument and account choice, instructions built by the JavaScript client carry the bytes, account order and flags the program decodes to the same operation; state and pending-withdraw accounts written by the program decode to the stored values and re-encode identically; events, errors and enumerations map to the same values as the program; and its state, cooldown, vault, supply, exchange-rate and pending-withdraw helpers report exactly what is on chain.",
  ["inputs"], "all instruction arguments, all account field values, all error codes, all ledger contents",
  "JS tests are not in the baseline and check constants only.",
  ["js-client/src/generated", "js-client/src/utils/index.ts"],
  [("generated codecs", "js-client/src/generated")], ["encoded bytes, decoded values"])
p("C22", "Front-running with donations cannot profit from a staker",
  "An attacker who, from a freshly initialised pool, puts in c ORCA by any stakes and donations before a victim's stake, holds a xORCA and afterwards unstakes all of it, is owed at most a*(c+100)/(a+99) ORCA and so never more than it put in. The victim either is rejected without paying or receives at least one xORCA, redeemable for at least its stake less the price of one xORCA and one base unit.",
  ["inputs", "histories"], "all attacker stake/donation schedules and all victim amounts",
  "The inflation tests in the repository fix a few amounts; the bound must hold for every combination.",
  [S+"util/math.rs", S+"instructions/stake.rs"],
  [("virtual offsets of 100/100 and zero-mint rejection", S+"util/math.rs, instructions/stake.rs")], ["attacker and victim balances over the scenario"])
TS = "ts-scripts/"
p("C23", "Operator scripts do exactly what was asked, or nothing",
  "For every command line, key file, ledger and node failure, a run of the stake, unstake, withdraw, set, initialize, transfer-orca, transfer-orca-to-vault and update-xorca-mint-authority scripts has either no effect on the ledger or exactly the effect of the operation and the numbers typed (missing token accounts created where documented). A number the script cannot take exactly (fractions, exponents, trailing text, signs, too large) is refused, never truncated, wrapped or rounded. A valid, affordable request is carried out; except for withdraw, whose rejection by the chain is handled softly, the exit status is 0 only if the transaction went through; the balances and differences reported afterwards are those of the transaction. generate-keypair writes exactly the pair belonging to the secret, or nothing. upload-image hands the upload service exactly the bytes of the file, typed by its extension, on the network named and under the key given, or nothing.",
  ["inputs", "configurations"], "all argument spellings, key files, ledgers and points of node failure",
  "The scripts have no tests at all.",
  [TS+"stake.ts", TS+"unstake.ts", TS+"withdraw.ts", TS+"set.ts", TS+"initialize.ts", TS+"transfer-orca.ts", TS+"transfer-orca-to-vault.ts", TS+"update-xorca-mint-authority.ts", TS+"generate-keypair.ts", TS+"upload-image.ts", TS+"constants.ts"],
  [("argument parsing", TS+"constants.ts parseUnsignedInteger, BigInt() in the scripts"), ("hand-assembled instructions", TS+"*.ts")],
  ["transactions sent", "ledger after executing them", "exit status", "printed figures"])
p("C24", "Status and claim listings show what is on chain",
  "Against any ledger, the status script prints the stored cooldown, authority, escrow, vault balance, non-escrowed ORCA (signed) and xORCA supply exactly, and the two exchange rates (ORCA per xORCA and its inverse, with both virtual offsets of 100) under their right labels; the pending-withdraws script lists exactly the staker's claims with index 0 to 14, each with its ORCA amount and whether its maturity has passed, exact counts and totals, and true dates and durations, and exits 0 only if it could read the ledger. Addresses that merely hold lamports are no claims. If the node fails or accounts are missing, no wrong figure is printed and no claim silently left out.",
  ["inputs", "configurations"], "all ledger contents, clocks and points of node failure",
  "The scripts have no tests at all.",
  [TS+"status.ts", TS+"pending-withdraws.ts"],
  [("hand-written offsets and rates", TS+"status.ts, pending-withdraws.ts")],
  ["printed figures"])
p("C25", "The JavaScript client gives the same results in browsers as in Node",
  "For every exported function of the JavaScript client (conversions, address derivation, instruction builders and parsers, codecs, error recognition, fetch helpers) and every input and ledger, running it where only the web's standard globals exist (no Buffer, no process beyond the bundler's NODE_ENV, no require, no Node modules) gives the very value it gives in Node, or fails where it fails in Node. The client loads in both.",
  ["inputs", "configurations"], "all inputs of all exported functions, in both environments",
  "The client's tests run in Node only.",
  ["js-client/src/utils/index.ts", "js-client/src/utils/conversion.ts", "js-client/src/generated"],
  [("one source for both bundles", "js-client/vite.config.ts, js-client/README.md (universal compatibility)")],
  ["values returned, failures"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
