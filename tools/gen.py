#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (text lives here; what is claimed comes from props.py)"""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools")); sys.dont_write_bytecode = True
import props
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(observe), "hook_needed": None}})
CAP = "pallets/capacity/src/lib.rs"; CT = "pallets/capacity/src/types.rs"
MSA = "pallets/msa/src/lib.rs"; SS = "pallets/stateful-storage/src/lib.rs"; HD = "pallets/handles/src/lib.rs"
MSG = "pallets/messages/src/lib.rs"; SCH = "pallets/schemas/src/lib.rs"; TR = "pallets/time-release/src/lib.rs"
TX = "pallets/frequency-tx-payment/src/lib.rs"; PK = "pallets/passkey/src/lib.rs"
IH = ["inputs", "histories", "configurations"]
# ---------------------------------------------------------------- capacity
p("C01", "Stake is accounted exactly once in every ledger",
  "When tokens are staked to, or unstaked from, a provider, the account's active stake, the account-to-provider stake and the provider's total stake all move by exactly that number of tokens, and the capacity issued for them moves with them. Nobody else's stake or capacity changes, and an unstake never exceeds what the account has staked.",
  IH, "every sequence of stake, unstake and withdraw calls by any accounts to any providers, with any amounts and configuration",
  "the pallet tests stake a few fixed amounts from fresh accounts; the ledgers must agree after every history and for every amount, including rounding and partial unstakes",
  [CAP, CT], [("stake", f"{CAP} fn stake, increase_stake_and_issue_capacity"), ("unstake", f"{CAP} fn unstake, decrease_active_staking_balance, reduce_capacity")], ["stake, unstake extrinsics", "staking ledgers in storage"],
  [("staking account ledger", "active stake per account", CAP), ("staking target ledger", "stake per account and provider", CAP), ("capacity ledger", "stake and capacity per provider", CAP)])
p("C02", "Staked and unlocking tokens stay frozen until withdrawn",
  "An account's capacity-staking freeze always equals its active stake plus everything it is still unlocking, before and after every staking call. No call releases a token that is staked or not yet withdrawn, and no other freeze or balance is touched.",
  IH, "every sequence of stake, unstake and withdraw calls, at every epoch", "tests look at the freeze after single calls; a leak shows up only for particular combinations of partial unstakes, thawing and re-staking",
  [CAP, CT], [("freeze", f"{CAP} fn increase_stake_and_issue_capacity, set_staking_account_and_lock, do_withdraw_unstaked")], ["freezes of the staker", "stake, unstake, withdraw_unstaked extrinsics"])
p("C03", "Capacity spending is covered, and refilled at most once per epoch",
  "A provider can spend capacity only up to what remains, a spend takes exactly the charged amount or nothing, and remaining capacity never exceeds what was issued for the tokens staked to it. A refill happens at most once per epoch and sets what remains to exactly what was issued.",
  IH, "every interleaving of spends, refills, stakes and unstakes across epochs, for every amount", "tests spend fixed amounts within one or two epochs; the bound must survive every order of staking, unstaking, spending and refilling",
  [CAP, CT], [("spend", f"{CAP} impl Nontransferable: deduct, deposit, balance"), ("refill", f"{CAP} impl Replenishable: replenish_all_for, can_replenish"), ("ledger arithmetic", f"{CT} CapacityDetails::deposit, withdraw, deduct_capacity_by_amount, replenish_all")], ["capacity ledger in storage"])
p("C04", "Unstaked tokens are released only after the full thaw period",
  "Unstaked tokens go into an unlocking chunk that becomes available exactly one thaw period after the current epoch, within the limit of chunks per account. Withdrawing releases exactly the chunks that have thawed, keeps all the others unchanged and in order, and fails if nothing has thawed.",
  IH, "every set of unlocking chunks, every current epoch and thaw period", "tests thaw one or two chunks at fixed epochs; boundary epochs, equal thaw times and full chunk lists are not enumerated",
  [CAP, CT], [("chunk", f"{CAP} fn add_unlock_chunk"), ("reaping", f"{CT} fn unlock_chunks_reap_thawed, unlock_chunks_total"), ("withdraw", f"{CAP} fn do_withdraw_unstaked")], ["unlocking chunks in storage", "withdraw_unstaked extrinsic"])
p("C05", "Epochs advance exactly when due; only root changes their length",
  "At the start of a block the epoch number advances by exactly one if and only if the configured number of blocks has passed since the epoch began, and the new epoch's first block is recorded. Only the root origin can change the epoch length, and never beyond the configured maximum.",
  IH, "every block number, epoch start, epoch length and origin", "tests step through a few blocks with one epoch length; skipped blocks, changed lengths and extreme values are not covered",
  [CAP], [("epoch start", f"{CAP} fn start_new_epoch_if_needed"), ("length", f"{CAP} fn set_epoch_length")], ["current epoch in storage", "set_epoch_length extrinsic"])
p("C06", "Nobody stakes below the minimum, to a non-provider, or tokens not owned",
  "A stake succeeds only for a signed account, to a registered provider, and leaves the account with at least the minimum active stake. Everything an account has staked or is unlocking, plus the minimum token balance, never exceeds what it owns, and it stakes all that was asked for whenever that is available.",
  IH, "every balance, previous stake, requested amount, target and configuration", "tests use fresh accounts with round balances; repeated stakes by the same account and balances near the minimum are not explored",
  [CAP], [("preconditions", f"{CAP} fn ensure_can_stake, get_stakable_amount_for")], ["stake extrinsic"])
exec((ROOT / "tools" / "gen_more.py").read_text()) if (ROOT / "tools" / "gen_more.py").exists() else None
ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
(ROOT / "properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in P))
NA = getattr(props, "NOT_APPLICABLE", {})
checks = []
for x in P:
    i = x["id"]
    if i not in props.PROPS: continue
    s = props.PROPS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": s.get("technique", "contracts on the real functions, discharged by Kani/CBMC for all inputs"),
                   "level": props.level(i), "level_note": props.note(i)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "no contract discharged for it yet")} for i in ids if i not in props.PROPS],
     "notes": "All checks copy the current sources of /repo into a scratch workspace, compile them against the shim in /verif/shim and discharge the contracts in /verif/harness with Kani. No hooks in /repo."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(P), "properties,", len(checks), "claimed")
