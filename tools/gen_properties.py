#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os

F = "programs/farming/src/"
A = "programs/amm/src/"
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

INS = "instruction boundary: account bytes before and after every instruction"

# ---------------------------------------------------------------- farming
p("F01", "Stake custody: the vault backs all recorded stake exactly",
  "At all times a farm's stake vault holds exactly the sum of the recorded stake (earning plus not-yet-earning) of all farmers of that farm, plus any tokens third parties sent to the vault directly. "
  "Staking N tokens either fails or moves exactly N tokens from the given wallet into the vault and raises that one farmer's recorded stake by N; unstaking with a maximum of M moves exactly min(M, recorded stake) tokens from the vault to the given wallet and lowers the recorded stake by the same number, taking not-yet-earning tokens before earning ones. "
  "Staking a positive number of tokens which the signing owner of the wallet has succeeds for any farmer of the farm.",
  ["histories", "inputs"],
  "every history of staking, unstaking, compounding, harvest updates, snapshots and airdrops by any number of farmers in any number of farms, with any amounts",
  "Unit tests call the bookkeeping methods with a handful of numbers and no tokens; the endpoints that move tokens are not compiled by the test build, so no test relates records to vault balances over a history.",
  [F + "endpoints/start_farming.rs", F + "endpoints/stop_farming.rs", F + "endpoints/compound_same_farm.rs", F + "endpoints/compound_across_farms.rs", F + "models/farmer.rs"],
  [("unstake / add_to_vested bookkeeping paired with one token transfer", F + "models/farmer.rs"), ("stake vault is a PDA of the farm", F + "endpoints/create_farm.rs")],
  [("staked, vested", "tokens recorded for the farmer", F + "models/farmer.rs"), ("stake_vault", "token account of the farm", F + "models/farm.rs")],
  [INS])

p("F02", "Stake can always be withdrawn in full by its owner",
  "In every reachable state, the owner of a farmer account can unstake the whole recorded stake with one unstake instruction, and the tokens arrive in the wallet the owner named. "
  "Nothing other users, bots or the farm's admin can do through the program makes that instruction fail, whatever snapshots, harvest mints, harvest periods, airdrops or compounding have happened, and however long the farmer was inactive.",
  ["histories", "schedules"],
  "every reachable state, including after more than 1000 snapshots, at any slot, with any set of harvests",
  "A liveness claim over all reachable states; the tests execute no unstake instruction, and the harvest arithmetic that runs inside it is only sampled with small numbers.",
  [F + "endpoints/stop_farming.rs", F + "models/farmer.rs", F + "models/farm.rs"],
  [("unstake endpoint first settles harvest, then releases the stake", F + "endpoints/stop_farming.rs")],
  observe=["a withdrawal probe executed on a copy of each sampled state"])

p("F03", "Harvest equals the pro-rata emission over the slots credited",
  "When harvest is settled for a farmer, each harvest mint's claimable amount grows by the sum over the newly settled completed slots (those before the current one) of tokens-per-slot in force at that slot (zero outside every period) times the farmer's earning stake divided by the vault balance recorded by the latest snapshot taken at or before that slot (zero if there is none, or it recorded zero), both period ends inclusive. "
  "Rounding only ever favours the vault: the credit never exceeds that exact rational sum, and falls short of it by less than one token per snapshot window settled, plus a relative fixed-point error below 1e-15 for non-dust shares. "
  "Settling a farmer of the farm for the current slot always succeeds.",
  ["histories", "inputs"],
  "every history of stakes, unstakes, snapshots, periods and updates; any number of periods and snapshots between two updates, and any amounts and slots",
  "The tests check about twenty hand made windows with small numbers; the claim is about all combinations of period, snapshot and update boundaries (including ring buffer wrap-around) and all magnitudes.",
  [F + "models/farmer.rs", F + "models/farm.rs", F + "endpoints/update_eligible_harvest.rs"],
  [("window iteration over ring buffer", F + "models/farm.rs"), ("per window share times tps times slots", F + "models/farmer.rs")],
  [("calculate_next_harvest_from", "first slot not settled yet", F + "models/farmer.rs"), ("periods", "tokens per slot over slot ranges", F + "models/farm.rs"), ("ring_buffer", "vault balance per snapshot", F + "models/farm.rs")],
  [INS])

p("F04", "Each slot is settled once: harvest does not depend on when updates happen",
  "For one farmer, no slot's harvest is ever credited twice, none is credited before it is over and, as long as the snapshot history still covers it, none is skipped. "
  "Therefore inserting additional harvest updates (by anyone, at any slots, also with an explicit until-slot, also in the same slot as a snapshot or a deposit) changes the total harvest a farmer ends up with by at most the rounding of one token per window and update.",
  ["schedules", "histories"],
  "every placement of permissionless updates in every history",
  "It compares pairs of histories; the tests only look at single histories and at one hard coded double update.",
  [F + "models/farmer.rs", F + "endpoints/update_eligible_harvest.rs"],
  [("calculate_next_harvest_from advances past what was settled", F + "models/farmer.rs")],
  [("calculate_next_harvest_from", "first slot not settled yet", F + "models/farmer.rs")],
  ["twin executions of one history with and without extra updates"])

p("F05", "New stake earns from the first snapshot after the deposit, not before",
  "Freshly deposited stake (staked or compounded) earns no harvest for any slot before the first snapshot taken strictly after the slot of the farmer's most recent deposit. "
  "From that snapshot on it earns exactly like older stake, no matter how late, how often or through which instruction the farmer is next touched, even after the snapshot history has been entirely overwritten since the deposit. "
  "Stake that was already earning keeps earning without interruption when more stake is added.",
  ["histories", "schedules"],
  "every interleaving of deposits, compounding, snapshots and updates by several users, including long inactivity",
  "Tests place one deposit relative to one or two snapshots; they never rotate the ring buffer past a deposit and never run compounding.",
  [F + "models/farmer.rs", F + "models/farm.rs", F + "endpoints/start_farming.rs", F + "endpoints/compound_across_farms.rs"],
  [("first snapshot after vested_at moves vested to staked", F + "models/farm.rs")],
  [("vested, vested_at", "stake waiting for a snapshot", F + "models/farmer.rs")],
  [INS])

p("F06", "Harvest solvency: promised harvest never exceeds what was funded",
  "At any time, for each farm and harvest mint, the harvest already paid out plus everything farmers could still claim for slots so far is at most the tokens put into the harvest vault for periods (for the slots elapsed) and airdrops, so every farmer's claim can be paid from the vault, whatever the order in which farmers stake, update, unstake, compound and claim. "
  "In particular no farmer can claim more by splitting stake over accounts or by restaking.",
  ["histories", "schedules"],
  "every history and order of claims by any number of farmers",
  "It is a global sum over all farmers of a farm; tests settle one or two farmers and never pay anything out.",
  [F + "models/farmer.rs", F + "endpoints/claim_eligible_harvest.rs", F + "endpoints/new_harvest_period.rs", F + "endpoints/take_snapshot.rs"],
  [("shares relative to the snapshotted vault balance", F + "models/farmer.rs"), ("periods are pre-funded", F + "endpoints/new_harvest_period.rs")],
  observe=["sum over all farmers after every instruction; a settle-and-claim-all probe on copies of states"])

p("F07", "Claiming pays exactly the recorded harvest, once, where the owner says",
  "A claim moves, for each harvest vault the owner lists, exactly the amount recorded as claimable for that mint from the farm's own vault to the wallet listed next to it and sets the record to zero; mints not listed keep their record. "
  "A claim succeeds only with the signature of the farmer's owner, never touches stake, and claiming again without new harvest pays nothing.",
  ["inputs", "histories"],
  "all subsets, orders and repetitions of vault and wallet pairs, including wrong, foreign and duplicated accounts",
  "The claim endpoint is not compiled by the test build and has no test here; the account list is attacker controlled.",
  [F + "endpoints/claim_eligible_harvest.rs", F + "models/farmer.rs"],
  [("vault address derived from the farm and the mint", F + "endpoints/claim_eligible_harvest.rs")],
  [("harvests", "claimable amount per mint", F + "models/farmer.rs")],
  [INS])

p("F08", "Snapshot history is an honest, rate limited log of the last 1000 snapshots",
  "A successful snapshot appends one record (current slot, exact stake vault balance) and changes nothing else; after any number of snapshots the history consists of exactly the most recent 1000 (fewer before that) in the order taken, with the oldest overwritten first. "
  "A snapshot succeeds exactly when at least the farm's configured minimum window has passed since the previous one (7200 slots if the admin never configured it or configured zero), and anyone may take it. "
  "The admin can set the window to any value at any time.",
  ["histories", "inputs"],
  "any number of snapshots including several full rotations of the buffer, any window configuration and slots, any vault account offered",
  "Tests drive the method on in-memory structs to one rotation; the endpoint with its vault check, clock and configuration history is sampled once.",
  [F + "models/farm.rs", F + "endpoints/take_snapshot.rs", F + "endpoints/set_min_snapshot_window.rs"],
  [("ring buffer tip and minimum window", F + "models/farm.rs")],
  [("ring_buffer, ring_buffer_tip", "snapshot log", F + "models/farm.rs"), ("min_snapshot_window_slots", "rate limit", F + "models/farm.rs")],
  [INS])

p("F09", "Harvest periods stay ordered, disjoint and immutable once started",
  "For each harvest mint the initialised periods never overlap, are ordered from newest to oldest and at most the newest starts in the future; a period is only accepted if it lasts at least one slot, does not start in the past and starts after the latest started period ends. "
  "A period that has started is never altered, and is discarded only once the whole remaining snapshot history is newer than its end, otherwise the new period is refused; only a period that has not started can be replaced. "
  "The record of a period says exactly what the admin asked for: start (or the current slot when zero is given), start + length - 1 as the last slot, and tokens per slot. "
  "A period of two or more slots which meets these conditions and is paid for is accepted.",
  ["histories", "inputs"],
  "every sequence of period requests over time, any slots and lengths, interleaved with snapshots, several mints",
  "Tests try single requests on hand made arrays and only in the test configuration; the rule about discarding periods depends on long histories and on the build configuration.",
  [F + "models/farm.rs", F + "endpoints/new_harvest_period.rs"],
  [("new_harvest_period checks", F + "models/farm.rs")],
  [("periods", "10 newest periods of a mint", F + "models/farm.rs")],
  [INS])

p("F10", "Every harvest period is funded up front to the token",
  "Opening a period moves exactly tokens-per-slot times number-of-slots from the admin's wallet into the harvest vault; replacing a scheduled period moves exactly the difference, in the direction its sign says (refund from vault to the admin's wallet when the new one is cheaper). "
  "If the funds are missing or the product overflows, the period is not created and nothing moves.",
  ["inputs", "histories"],
  "any sequence of openings and replacements with any rates, lengths and wallet balances",
  "The tests check the multiplication on five inputs and never a token transfer.",
  [F + "endpoints/new_harvest_period.rs"],
  [("total_tokens_emitted_per_period and difference transfer", F + "endpoints/new_harvest_period.rs")],
  observe=[INS])

p("F11", "Only the right signer can change a farm or touch a farmer's funds",
  "Adding or removing a harvest mint, opening a period, setting the snapshot window, changing the admin, and whitelisting or de-whitelisting a compounding target succeed only when the current admin of that very farm signs (the new admin must sign too). "
  "Unstaking, claiming and closing a farmer succeed only when that farmer's owner signs; staking and airdropping only when the authority of the wallet that pays signs. "
  "Whoever else signs, and whatever accounts are offered, these instructions fail and change nothing. "
  "Conversely each of these admin instructions succeeds for the admin whenever nothing stated in the other properties forbids it.",
  ["inputs", "configurations"],
  "every instruction, with any signer set, former admins, admins and owners of other farms and farmers, and missing signatures",
  "Authorization is universally quantified over callers; the Rust tests in this repository call no endpoint at all.",
  [F + "endpoints/" + x for x in ("add_harvest.rs", "remove_harvest.rs", "new_harvest_period.rs", "set_min_snapshot_window.rs", "set_farm_owner.rs", "whitelist_farm_for_compounding.rs", "dewhitelist_farm_for_compounding.rs", "stop_farming.rs", "claim_eligible_harvest.rs", "close_farmer.rs")],
  [("admin comparison in handlers; owner in PDA seeds", F + "endpoints/")],
  [("admin", "current admin", F + "models/farm.rs"), ("authority", "owner of the farmer", F + "models/farmer.rs")],
  [INS])

p("F12", "Farming instructions reject substituted, foreign or fake accounts",
  "An instruction that succeeds has used the stake vault, harvest vault, signer and whitelist accounts that belong to the farm it names, a farmer that belongs to that farm, and accounts that really are farm, farmer and token accounts owned by the right programs. "
  "Replacing any of these by the corresponding account of another farm or farmer, by a look-alike with copied contents under another owner, by another kind of account of the same program, or by a different program makes the instruction fail without effect.",
  ["inputs"],
  "every instruction and account position, with substitutes drawn from all other accounts of the system and forged look-alikes",
  "Hostile account lists are an unbounded input space that no Rust test here exercises.",
  [F + "endpoints/"],
  [("seeds, owner, discriminator and linkage constraints", F + "endpoints/")],
  observe=[INS])

p("F13", "Compounding moves exactly the user's own harvest into their own stake",
  "A successful compounding settles the source farmer, moves exactly the claimable amount of the stake mint from the source farm's harvest vault to the target farm's stake vault, zeroes that record and adds the same amount to the waiting stake of the same owner's farmer in the target farm; other harvest records and all wallets are unchanged. "
  "It succeeds only while the source farm's admin has the target farm whitelisted (a farm must whitelist itself for compounding within one farm), in that direction only. "
  "It never takes away or postpones harvest that the source or target farmer has already earned or is already entitled to earn. "
  "While the whitelisting exists and the source farmer has a record of the target's stake mint, compounding between two different farms or within one farm succeeds for farmers of one owner, whoever signs.",
  ["histories", "inputs"],
  "all farm pairs, whitelist histories, and farmers with earning, waiting and empty stake, at any slot",
  "Neither compounding endpoint is compiled by the test build.",
  [F + "endpoints/compound_same_farm.rs", F + "endpoints/compound_across_farms.rs", F + "endpoints/whitelist_farm_for_compounding.rs", F + "endpoints/dewhitelist_farm_for_compounding.rs"],
  [("whitelist PDA of (source, target)", F + "endpoints/whitelist_farm_for_compounding.rs"), ("claim_harvest then add_to_vested", F + "models/farmer.rs")],
  observe=[INS])

p("F14", "Harvest mint registry: at most ten distinct mints, removed only when paid out",
  "A farm lists at most ten harvest mints, all distinct, each with its own vault controlled by the farm alone and starting without periods; adding an eleventh or a duplicate fails. "
  "A mint can be removed only when its vault is empty; removal frees the slot and leaves the other mints' periods and records untouched. "
  "Every farmer's list of claimable amounts follows the farm's list at the next settlement without losing or mixing up any amount of a mint the farm still lists. "
  "Adding a new mint to a list that is not full, and removing a listed mint whose vault is empty, succeeds for the admin.",
  ["histories"],
  "every sequence of additions and removals interleaved with settlements, up to and including the limit of ten",
  "Tests add a few mints to one in-memory farm; the interplay of a full registry, removals and stale farmers is only sampled.",
  [F + "models/farm.rs", F + "models/farmer.rs", F + "endpoints/add_harvest.rs", F + "endpoints/remove_harvest.rs"],
  [("first free slot; duplicate check; vault balance constraint", F + "models/farm.rs"), ("sync_harvest_mints", F + "models/farmer.rs")],
  observe=[INS])

p("F15", "An airdrop credits one farmer by exactly what was paid in",
  "A successful airdrop of N tokens moves exactly N tokens of a harvest mint from the payer's wallet into that farm's harvest vault for the mint and raises the chosen farmer's claimable amount of that mint by exactly N, changing nothing else. "
  "It fails without effect for zero tokens, for a mint the farmer has no record of, or if the payer lacks the tokens. "
  "An airdrop which none of these rules out succeeds.",
  ["inputs", "histories"],
  "any farmer, mint and amount (up to overflow) at any point of any history",
  "The airdrop endpoint is not compiled by the test build.",
  [F + "endpoints/airdrop.rs"],
  [("credit paired with one transfer", F + "endpoints/airdrop.rs")],
  observe=[INS])

p("F16", "Farm and farmer accounts start clean and close only when empty",
  "Creating a farm makes the signing payer its admin, with an empty snapshot history, no harvest mints and an empty stake vault of the given mint that only the farm controls; creating a farmer (anyone may pay for it) yields exactly one account per farm and owner, with zero stake and zero claimable harvest. "
  "Neither can be created over an existing one, and a farmer can be closed only by its owner, only when it holds no stake and no claimable harvest; closing returns the rent to the owner and recreating starts from zero. "
  "Conversely, creating a farm or farmer that does not exist yet, and closing an empty farmer, succeeds.",
  ["histories", "inputs"],
  "any order of creating, using, closing and recreating accounts by any users, including hostile pre-funding of the addresses",
  "No Rust test runs the creation and closing endpoints.",
  [F + "endpoints/create_farm.rs", F + "endpoints/create_farmer.rs", F + "endpoints/close_farmer.rs"],
  [("PDA init and close constraints", F + "endpoints/")],
  observe=[INS])

p("F17", "All farmers together earn what a farm emits, never more",
  "Between any two slots, the harvest of one mint earned by all farmers of a farm together (what everybody has claimable once settled, plus what was claimed or compounded, less airdrops) exceeds the sum of that mint's tokens-per-slot over the slots in between by no more than rounding, whatever anybody stakes, unstakes, compounds or donates and in whichever order accounts are updated. "
  "While all tokens in the stake vault are stake that already earns, recorded by every snapshot of the stretch, and the snapshot history covers all farmers, they earn all of it, up to rounding: less than one token per farmer and snapshot window and one per settlement.",
  ["histories", "inputs"],
  "every history with any number of farmers, deposits, withdrawals, snapshots, period changes and updates, over any slots",
  "No Rust test has two farmers in one farm; the claim sums over all accounts and all orders of events.",
  [F + "models/farmer.rs", F + "models/farm.rs", "README.md"],
  [("eligible harvest per snapshot window", F + "models/farmer.rs"), ("snapshot of the stake vault balance", F + "models/farm.rs")],
  [("staked / vested", "earning and waiting stake per farmer", F + "models/farmer.rs"), ("snapshots", "stake vault balance per window", F + "models/farm.rs")],
  [INS])

# ---------------------------------------------------------------- amm
p("A01", "Pool reserve records always match the tokens in the vaults",
  "After every instruction, the reserve amount a pool records for each mint equals the balance of that reserve's vault, apart from tokens sent to the vault outside of these instructions, which are never counted. "
  "Deposits, redemptions and swaps move exactly the recorded differences between the user's wallets and the pool's vaults, and nothing else ever leaves a vault.",
  ["histories", "inputs"],
  "every history of deposits, redemptions and swaps with 2, 3 and 4 reserves, both curves, any amounts, fees and discounts",
  "Unit tests mutate the in-memory pool without tokens (and the AMM is not compiled by the test build).",
  [A + "models/pool.rs", A + "endpoints/swap.rs", A + "endpoints/deposit_liquidity.rs", A + "endpoints/redeem_liquidity.rs"],
  [("add_tokens / remove_tokens paired with transfers", A + "models/pool.rs")],
  [("reserves", "recorded amounts", A + "models/pool.rs")],
  [INS])

p("A02", "Constant product swaps follow x*y=k and never reduce the pool's product",
  "On a constant product pool a swap of S sell tokens with fee f, from a sell reserve x to a buy reserve y, pays out floor(y - x * y / (x + S - f)) buy tokens, never more than that (one token more if the sell reserve comes to exceed 1e18) and at most one token less, and while the reserves stay up to 1e18 the product of all reserves never decreases through any sequence of swaps. "
  "A swap never empties a reserve, a swap whose net amount reaches the sell reserve is refused, and any other valid swap whose product of reserves fits the decimals (below 5e35) and which meets the minimum is carried out.",
  ["inputs", "histories"],
  "all reserve vectors of dimension 2 to 4, sell amounts, fees and directions, and sequences of swaps",
  "Tests check a few reserve pairs; the claim covers all magnitudes, where fixed-point truncation matters.",
  [A + "models/pool.rs", A + "endpoints/swap.rs"],
  [("calculate_swap", A + "models/pool.rs")],
  observe=[INS])

p("A03", "Stable swaps and the stored invariant follow the stable curve",
  "On a stable pool the stored invariant after every instruction is the positive root of the stable swap equation for the recorded reserves (zero if a reserve is empty), within a relative error of 1e-6 plus what 18 decimals cost for extremely imbalanced reserves, and a swap pays out what keeps the reserves on the curve of the stored invariant, within 1e-6 of the buy reserve plus two tokens. "
  "A swap never pays out a whole reserve, and a valid swap on a pool which is not extremely imbalanced, with amounts the decimals can represent, is carried out.",
  ["inputs", "histories"],
  "amplifiers from 1 to 1000000, dimension 2 to 4, balanced and imbalanced reserves, sequences of swaps, deposits and redemptions",
  "Numerical claims over a large continuous space; tests sample points and check only that no error is returned.",
  [A + "math/stable_curve_invariant.rs", A + "math/swap_equation.rs", A + "models/pool.rs"],
  [("Newton iteration", A + "math/stable_curve_invariant.rs"), ("quadratic root", A + "math/swap_equation.rs")],
  observe=[INS])

p("A04", "Swap fee is exactly the configured share, less a valid discount",
  "Each swap retains a fee of ceil(sell * fee share * (1 - discount)) in the sell reserve, where the discount applies if and only if the signing user's own discount account exists, is positive and the current slot is not after its validity slot. "
  "The pool's fee share is zero at creation, can only be set by the pool's admin, never exceeds 1%, and does not change otherwise.",
  ["inputs", "histories", "configurations"],
  "all sell amounts, fee shares, discounts, validity slots and users, including other users' discounts",
  "Tests compute a few fees with hand made accounts; discount validity over time and over users is not sampled.",
  [A + "endpoints/swap.rs", A + "endpoints/set_pool_swap_fee.rs", A + "models/discount.rs", A + "consts.rs"],
  [("calculate_swap_fee", A + "endpoints/swap.rs"), ("MAX_SWAP_FEE", A + "consts.rs")],
  observe=[INS])

p("A05", "The toll is a third of the fee, in LP tokens, to one fixed wallet",
  "Each swap mints LP tokens to the pool's toll wallet only, worth the share of the pool obtained by depositing one third (0.333333) of the swap fee value spread evenly over the reserves: round(fee * 0.333333 / n) relative to the sell reserve after the swap, times the LP supply, within one token plus rounding, and never more than the fair share. "
  "No other account receives LP tokens in a swap, and LP supply changes by exactly the toll.",
  ["inputs", "histories"],
  "all pools, reserve imbalances, fees and sell amounts",
  "Tests check single values for a balanced pool.",
  [A + "endpoints/swap.rs", A + "models/pool.rs"],
  [("calculate_toll_in_lp_tokens", A + "endpoints/swap.rs")],
  observe=[INS])

p("A06", "Users never pay more or receive less than the limits they set",
  "A swap takes exactly the stated sell amount and succeeds only if it pays at least the stated minimum; a deposit takes of each mint at most the stated maximum and more than zero; a redemption burns exactly the stated LP tokens and pays of each mint at least the stated minimum. "
  "If a limit cannot be met the instruction fails and nothing changes.",
  ["inputs"],
  "all pools, amounts and limits, in particular limits at the exact boundary and reserves of very different magnitude",
  "The limits must hold for all inputs in spite of rounding; tests use round numbers.",
  [A + "endpoints/swap.rs", A + "models/pool.rs", A + "endpoints/deposit_liquidity.rs", A + "endpoints/redeem_liquidity.rs"],
  [("get_deposit_ratio, min_buy and min_tokens checks", A + "models/pool.rs")],
  observe=[INS])

p("A07", "LP shares are fair: deposits and redemptions never dilute other holders",
  "The first deposit into an empty pool takes the stated maxima and mints as many LP tokens as the smallest of them; each later deposit takes tokens in the ratio of the reserves (rounded up by at most one token, with a relative error of 2e-9), limited by one of the maxima, and mints the smallest supply * deposited / reserve over the reserves rounded down, never more than that and less by at most two tokens and rounding. "
  "Burning b of s LP tokens pays of each reserve x at most x * b / s and less than that by at most two tokens plus x * 2e-18, and all of it when b = s. "
  "Hence no deposit or redemption lowers any reserve per LP token, and no sequence of deposits and redemptions alone returns more of any mint than was put in.",
  ["inputs", "histories"],
  "all pools with any reserve magnitudes, supplies, maxima and amounts, and sequences by several users",
  "Rounding fairness is a claim over all magnitudes; the tests compare a few results with literals.",
  [A + "models/pool.rs", A + "endpoints/deposit_liquidity.rs", A + "endpoints/redeem_liquidity.rs"],
  [("deposit_tokens, get_eligible_lp_tokens, redeem_tokens", A + "models/pool.rs")],
  observe=[INS])

p("A08", "A pool can only be created from safe, consistent accounts",
  "Creating a pool succeeds only with two to four vaults of pairwise different mints that are token accounts owned by the pool's own signer, without delegate or close authority and not frozen, with an LP mint whose only mint authority is that signer and which has no freeze authority, and with a toll wallet of that LP mint owned by the registered toll authority; the vaults are empty if and only if the LP supply is zero. "
  "The created pool records exactly these accounts, the vault balances as reserves, the signer as admin, a zero fee, and the constant product curve for amplifier zero or the stable curve with the given amplifier.",
  ["inputs", "configurations"],
  "all combinations of valid and defective accounts, vault counts and amplifiers",
  "Combinatorial space of defective account sets; not covered by the Rust tests that build here.",
  [A + "endpoints/create_pool.rs"],
  [("constraints and checks on vaults, mint and wallet", A + "endpoints/create_pool.rs")],
  observe=[INS])

p("A09", "AMM settings can only be changed by their authorities",
  "The toll and the discount settings can be created once each, only by the program's upgrade authority proven by the program's own metadata; discounts can be put only by the authority named in the discount settings, with at most 100% and a validity slot in the future; a pool's fee only by that pool's admin. "
  "Any other caller, forged metadata or settings account makes the instruction fail without effect.",
  ["inputs", "configurations"],
  "all callers, account substitutions, amounts and slots",
  "Universally quantified over callers and forged accounts; no Rust test that builds here covers it.",
  [A + "endpoints/create_program_toll.rs", A + "endpoints/create_discount_settings.rs", A + "endpoints/put_discount.rs", A + "endpoints/set_pool_swap_fee.rs"],
  [("upgrade authority and settings authority constraints", A + "endpoints/")],
  observe=[INS])

p("A10", "Liquidity can always be redeemed",
  "In every reachable state of a pool with LP supply, any holder can burn any positive number of their LP tokens in a redemption with zero minima and receive the pro rata tokens; the last holder can redeem everything, leaving the pool empty, and the pool can then be used again by a new first deposit.",
  ["histories"],
  "every reachable state of constant product pools, and of stable pools that are not extremely imbalanced",
  "A liveness claim over all reachable states, depending on numeric code that runs inside the redemption.",
  [A + "endpoints/redeem_liquidity.rs", A + "models/pool.rs", A + "math/stable_curve_invariant.rs"],
  [("redeem_tokens then update_curve_invariant", A + "endpoints/redeem_liquidity.rs")],
  observe=["a redemption probe executed on a copy of each sampled state"])

p("A11", "AMM instructions reject substituted, foreign or fake accounts",
  "A successful deposit, redemption or swap has used the vaults, LP mint, toll wallet and signer recorded by the pool it names, each vault for its own mint and paired with the wallet of the same mint; tokens leave only wallets whose authority signed, and a deposit takes from and a redemption pays to wallets of the user who signs. "
  "Replacing any account by that of another pool or user, a look-alike, another kind of account, a duplicate, or another program makes the instruction fail without effect.",
  ["inputs"],
  "every instruction and account position, with substitutes drawn from all other accounts of the system and forged look-alikes",
  "Hostile account lists are an unbounded input space that no Rust test that builds here exercises.",
  [A + "endpoints/swap.rs", A + "endpoints/deposit_liquidity.rs", A + "endpoints/redeem_liquidity.rs"],
  [("constraints on pool linkage", A + "endpoints/")],
  observe=[INS])

p("A12", "Discounts are stored exactly as granted, one per user, for every pool",
  "Putting a discount for a user creates or overwrites exactly that user's discount account with the given amount and validity slot, whether or not the user had one before, and changes no other user's discount. "
  "It fails without effect if the amount exceeds 100% or the validity slot is not in the future; an accepted discount is honoured in every pool until its validity slot (inclusive).",
  ["histories", "inputs"],
  "all sequences of grants for several users, amounts and slots, including addresses that hold lamports already",
  "Sequences and boundary values are not covered; the endpoint has no Rust test that builds here.",
  [A + "endpoints/put_discount.rs", A + "models/discount.rs"],
  [("create or overwrite the PDA", A + "endpoints/put_discount.rs")],
  observe=[INS])

p("A13", "Trading never drains a stable pool: its exact invariant never falls",
  "On a stable pool whose reserves are not extremely imbalanced (product of the reserves' shares of their sum above 1e-9, before and after) a swap, with or without fee, never lowers the exact invariant of the reserves, the positive root of the stable swap equation, by more than a relative 1e-9 and a millionth of a token. "
  "Hence no sequence of swaps, however many and however small, and there and back, pays out more than it takes in beyond that precision: rounding always favours the pool.",
  ["histories", "inputs"],
  "all amplifiers, reserve vectors, amounts (a single token and up to the whole reserve) and directions; sequences of swaps by any users",
  "The tests check that single swaps on a few pools return the expected number; whether the errors of iteration, square root and rounding add up in the traders' favour is a claim about all of them.",
  [A + "math/stable_curve_invariant.rs", A + "math/swap_equation.rs", A + "models/pool.rs", A + "endpoints/swap.rs"],
  [("Newton iteration from above", A + "math/stable_curve_invariant.rs"), ("payout rounded down", A + "models/pool.rs")],
  observe=[INS])

# ---------------------------------------------------------------- both
p("A14", "Every swap, deposit and redemption logs the LP supply it leaves behind",
  "Every successful swap, deposit and redemption writes exactly one line `lp-supply=N` to the transaction log, where N is the decimal LP supply of that pool's mint after the instruction, with all tokens it minted (as toll, too) or burned. "
  "No other instruction writes such a line, so that a backend which reads the lines in order knows the supply of every pool at all times.",
  ["histories", "inputs"],
  "every history of deposits, redemptions, swaps with and without toll, in pools with 2, 3 and 4 reserves and both curves, including the first deposit and the last redemption",
  "No Rust test reads logs, or runs the endpoints of the AMM.",
  [A + "misc.rs", A + "endpoints/swap.rs", A + "endpoints/deposit_liquidity.rs", A + "endpoints/redeem_liquidity.rs"],
  [("print_lp_supply reloads the mint after the token program's calls", A + "misc.rs")],
  [("lp_mint.supply", "LP tokens in circulation", A + "endpoints/swap.rs")],
  [INS])

p("X01", "An instruction changes nothing but what it documents",
  "Every instruction of both programs, successful or not, leaves all accounts it has no business with byte-for-byte unchanged: other users' farmers, other farms and pools, wallets and mints not named by its documented effect, and all fields of the named accounts the documentation of the instruction does not mention. "
  "Creating an account costs its payer exactly the rent it lacks, closing one returns all its lamports to the owner. "
  "A failed instruction changes nothing at all.",
  ["histories", "inputs"],
  "every instruction in every reachable state, including hostile extra and duplicated accounts",
  "A frame condition quantifies over all state not touched; tests only look at the few fields they set.",
  [F + "endpoints/", A + "endpoints/"],
  [("account mutability flags and handlers", F + "endpoints/")],
  observe=[INS])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
