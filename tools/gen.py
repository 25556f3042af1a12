#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  Usage: tools/gen.py [claimed ids...]"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, I, C, F = "histories", "inputs", "configurations", "fault_sequences"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, note=""):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
            observe_at=observe, hook_needed=None), _note=note))

POOL = "contracts/pool/src/contract.rs"
STB = "contracts/pool_stable/src/contract.rs"
MATH = "contracts/pool_stable/src/math.rs"
FAC = "contracts/factory/src/contract.rs"
HOP = "contracts/multihop/src/contract.rs"
STK = "contracts/stake/src/contract.rs"
DIS = "contracts/stake/src/distribution.rs"
SRW = "contracts/stake_rewards/src/contract.rs"
SRD = "contracts/stake_rewards/src/distribution.rs"
VES = "contracts/vesting/src/contract.rs"
VUT = "contracts/vesting/src/utils.rs"
TOK = "contracts/token/src/contract.rs"
TRD = "contracts/trader/src/contract.rs"
CUR = "packages/curve/src/lib.rs"
DEC = "packages/decimal/src/decimal.rs"

prop("P01", "Pool custody: reserves are backed and every token movement is accounted for",
 "At every moment a pool's token balances are at least the reserves it reports. Every swap, deposit and withdrawal moves the reported reserves by exactly what its token balances moved, pays only the caller, the configured fee recipient and the pool itself, and creates or loses no token (a deposit also credits what had been sent to the pool directly before it). A rejected operation changes nothing, and no operation changes the balance of an uninvolved account.",
 [H, I, C], "all histories of deposits, swaps, withdrawals, LP transfers, direct transfers to the pool and reconfigurations, for both pool types, all fees, decimals and amounts, and tokens that take a fee on transfer for the backing part",
 "The tests compare a few balances after one or two operations with hand-picked amounts; backing over arbitrary interleavings with donations, odd amounts, fee changes and rejected operations is never checked.",
 [POOL, STB], [("swap settlement", POOL+": do_swap"), ("swap settlement, stable", STB+": do_swap"), ("reserve bookkeeping", "contracts/pool/src/storage.rs: save_pool_balance_a/b")],
 ["token balances of pool, users, fee recipient", "query_pool_info"])
prop("P02", "Constant-product price and commission of every swap are exact",
 "For a swap of x on reserves (in, out), the amount bought before commission is out - in*out/(in+x) to within one unit of rounding and never better than the spot price x*out/in. The commission is the configured basis points of that amount, rounded down, goes entirely to the fee recipient, and the trader receives exactly the rest. A swap within all its limits and funds is executed.",
 [H, I, C], "all pool states reached by histories, all amounts, both directions, all fee settings",
 "Tests pin a handful of amounts on round reserves with at most two fee settings.",
 [POOL], [("price formula", POOL+": compute_swap"), ("commission", POOL+": do_swap")], ["token balances before and after each swap"])
prop("P03", "Swap limits are enforced exactly: minimum, spread, deadline, fee cap",
 "A swap that succeeds satisfied every limit its caller gave - at least the minimum received, price impact not above the given spread (or the pool's maximum), not after the deadline, pool fee not above the caller's cap - and the caller's spread never exceeds the pool's maximum. A swap that satisfies all its limits is not refused, and a refused swap moves nothing.",
 [H, I, C], "limits at, just below and just above the boundary on states reached by histories; both pool types",
 "Tests try one value on one side of a limit, mostly far from the boundary, and rarely check combinations of limits.",
 [POOL, STB], [("spread check", POOL+": assert_max_spread"), ("limits", POOL+": swap"), ("limits, stable", STB+": swap")], ["swap result, ledger time, balances"])
prop("P04", "Constant-product deposits: proportional, within tolerance, fair shares",
 "A deposit takes from the depositor at most the desired amounts, at least the minimum amounts, in the pool's proportion within the accepted slippage and not after its deadline; otherwise it is refused without effect. The first deposit mints sqrt(a*b) shares of which 1000 stay with the pool forever, and a later one mints the smaller of the two contributions' share of the supply, so it never dilutes the other holders beyond one unit of rounding. A deposit of both tokens within all limits succeeds.",
 [H, I, C], "all pool states reached by histories, all desired/minimum amounts around the proportional point, all slippage settings and deadlines",
 "Tests use round ratios; the boundary of the slippage window, minimum amounts off by one and odd reserves are not sampled.",
 [POOL, "packages/phoenix/src/utils.rs"], [("deposit", POOL+": provide_liquidity"), ("proportional amounts", POOL+": get_deposit_amounts"), ("slippage", POOL+": assert_slippage_tolerance")], ["balances, LP balances, query_pool_info"])
prop("P05", "Withdrawal pays the pro-rata share of both reserves, within limits",
 "Withdrawing s of S shares burns exactly s of the caller's shares and pays the caller s/S of each reserve, rounded down (to at most one unit below the exact quotient), nothing else moving. It is refused without effect when either payout is below the caller's minimum, the deadline has passed or the caller does not hold the shares, and is executed otherwise.",
 [H, I, C], "all pool states reached by histories, all share amounts, minimums and deadlines at their boundaries; both pool types",
 "Tests withdraw everything or half on round numbers; remainders, dust amounts and boundaries of the minimums are not covered.",
 [POOL, STB], [("withdrawal", POOL+": withdraw_liquidity"), ("withdrawal, stable", STB+": withdraw_liquidity")], ["balances, LP balances, query_pool_info"])
prop("P06", "LP share supply equals the sum of holdings; only deposits, withdrawals change it",
 "The share total a pool reports always equals the sum of all holders' LP token balances. Only a deposit increases and only a withdrawal decreases it; swaps, LP transfers, donations and reconfigurations leave it unchanged.",
 [H, I], "all histories of pool operations and LP transfers; both pool types",
 "Tests look at single supplies after single operations, not at the equality over whole histories.",
 [POOL, STB, TOK], [("total share counter", "contracts/pool/src/storage.rs: utils::mint_shares/burn_shares"), ("total share counter, stable", "contracts/pool_stable/src/storage.rs: utils::mint_shares/burn_shares")], ["LP balances of all holders, query_pool_info"])
prop("P07", "Swap simulation tells what execution does; reverse simulation is its inverse",
 "A simulation made immediately before a swap reports exactly the amount the swap then pays, the commission it charges and the price impact it incurs, and its parts add up; a constant-product swap that cannot be executed for price reasons cannot be simulated either, or is simulated as buying nothing from an empty reserve. A reverse simulation names an offer that, simulated forwards, yields the asked amount up to rounding, with the commission and spread of that trade (from reserves that are not empty), and refuses asks the reserve cannot serve.",
 [H, I, C], "all pool states reached by histories, all amounts, both directions, all fees; both pool types (the stable pool's reverse simulation is judged against its own curve's solver accuracy)",
 "Tests compare one simulated amount per scenario with a constant.",
 [POOL, STB, MATH], [("forward simulation", POOL+": simulate_swap, compute_swap"), ("reverse", POOL+": compute_offer_amount"), ("stable reverse", STB+": compute_offer_amount")], ["simulate_swap, simulate_reverse_swap, swap results"])
prop("P08", "Stable swaps stay on the stable-swap curve for the configured amplification",
 "A stable pool pays for a swap the difference that keeps the stable-swap invariant for its amplification and the tokens' decimals, to within rounding of a unit of either token, less the configured commission, which goes to the fee recipient. The invariant never decreases through a swap beyond that rounding.",
 [H, I, C], "all pool states reached by histories, all amplifications from 1 to 1,000,000, decimals 0-18 in all pairs, all amounts and fees",
 "Tests fix one amplification and equal decimals on nearly balanced reserves.",
 [STB, MATH], [("invariant", MATH+": compute_d"), ("curve", MATH+": calc_y"), ("swap", STB+": compute_swap")], ["balances before and after each swap"])
prop("P09", "Stable deposits mint shares in proportion to the invariant they add",
 "A deposit into a stable pool mints shares in the proportion in which it raises the pool's stable-swap invariant, to within rounding, and takes exactly the offered amounts, so that it never dilutes other holders. It is refused without effect when fewer shares than the caller's minimum would be minted, its slippage setting exceeds the pool's maximum, or its deadline has passed, and is executed otherwise.",
 [H, I, C], "all pool states reached by histories, all amounts including one-sided deposits, all amplifications and decimals",
 "Tests check three deposits with equal amounts and one amplification.",
 [STB, MATH], [("shares", STB+": provide_liquidity"), ("invariant", MATH+": compute_d")], ["balances, LP balances, query_pool_info"])
prop("P10", "Only the administrator can change configuration, code, whitelist and flows",
 "Every operation that changes a contract's configuration, code, administrator, whitelist, stored code hashes, minter or reward flows succeeds only with the authorization of the account entitled to it at that moment (the current administrator, or the manager or owner of a staking contract), and without that authorization it changes nothing. After an administrator is replaced the former one is no longer accepted and the new one is. A code update by the entitled account makes the contract run exactly the given code and leaves its data alone (the constant-product pool's upgrade also sets the default slippage it is given).",
 [H, I, C], "all contracts and privileged operations, called with no signature, an outsider's signature, the outsider posing as sender, and a former administrator's signature, in states reached by histories",
 "Tests run with all authorizations mocked, so a missing check is invisible to them; negative cases exist for few operations.",
 [POOL, STB, FAC, HOP, STK, SRW, VES, TOK, TRD], [("pool configuration", POOL+": update_config, upgrade, update"), ("stable configuration", STB+": update_config, upgrade, update"), ("whitelist, hashes", FAC+": update_whitelisted_accounts, update_wasm_hashes, update"), ("flows", STK+": create_distribution_flow, distribute_rewards, update"), ("minter", VES+": update_minter, update_minter_capacity, update"), ("token admin", TOK+": mint, set_admin"), ("trader", TRD+": trade_token, transfer")], ["recorded and enforced authorizations, ledger state digests"])
prop("P11", "No account loses tokens, shares, stakes or claims without authorizing that call",
 "Whenever a call reduces an account's token or share balance, its stake or its claimable amount, that account authorized that very call (or gave the spender an allowance that covers it). Staking rewards that are paid out to the staker in full are no reduction: anybody may trigger that payment. Without the account's authorization the call fails and changes nothing.",
 [H, I, C], "all user-facing operations of all contracts on states reached by histories, called with everyone's, nobody's and only outsiders' signatures",
 "Tests run with all authorizations mocked and so cannot notice a missing or misdirected authorization.",
 [POOL, STB, HOP, STK, VES, TOK, TRD], [("sender.require_auth", POOL+": provide_liquidity, swap, withdraw_liquidity"), ("multihop", HOP+": swap"), ("stake", STK+": bond, unbond"), ("vesting", VES+": claim, burn, mint"), ("token", TOK+": transfer, burn, approve")], ["recorded authorizations against balance changes"])
prop("P12", "Contracts are initialized exactly once and only with valid settings",
 "A contract can be initialized once; every further attempt fails and leaves all state as it was. Initialization and reconfiguration accept basis-point settings only between 0 and 10000 (at creation a pool fee also within the given maximum), two different tokens in order, positive staking minimums, and token decimals up to 18, and whatever they accept is what the contract then reports.",
 [I, C, H], "all contracts, all combinations of settings at, inside and outside their bounds, repeated initialization by anyone with any arguments at any later state",
 "Tests check one invalid value per setting for some contracts, and re-initialization only immediately after the first.",
 [POOL, STB, FAC, HOP, STK, SRW, VES, TRD, TOK], [("initialize", POOL+": initialize"), ("validation", "packages/phoenix/src/utils.rs: validate_bps, validate_int_parameters"), ("initialize, others", "contracts/*/src/contract.rs: initialize")], ["initialize/update_config results, config queries, state digests"])
prop("P13", "Pool queries tell the truth and change nothing",
 "Every query of a pool returns what the contract's history implies - reserves, share total, addresses, configuration, and the share of the reserves a number of LP tokens is worth (zero for an empty pool) - consistently across the different queries. No query changes balances, shares, reserves or settings.",
 [H, I, C], "all pool states reached by histories including empty and drained pools, all share amounts; both pool types",
 "Tests query after single operations.",
 [POOL, STB], [("queries", POOL+": query_*"), ("share value", POOL+": query_share"), ("queries, stable", STB+": query_*")], ["query results against the reference model, state digests"])
prop("P14", "Factory registry is complete, consistent and one pool per token pair",
 "The factory lists exactly the pools it created, each once and in creation order, and every listed pool's details equal what the pool itself reports. The pool of a pair is found under both orders of its tokens, no pair ever has two pools, an unknown pair or pool is refused, and a user's portfolio reports exactly that user's LP share value in every pool and stakes in every stake contract.",
 [H, I, C], "all histories of pool creations over many tokens and both pool types, with deposits, swaps, transfers, bonds and queries in between",
 "Tests create two or three pools and look up one pair.",
 [FAC, "contracts/factory/src/storage.rs"], [("registry", FAC+": create_liquidity_pool"), ("pair lookup", FAC+": query_for_pool_by_token_pair"), ("portfolio", FAC+": query_user_portfolio")], ["factory queries against recorded creations and direct pool queries"])
prop("P15", "Only whitelisted accounts create pools, with exactly the requested settings",
 "Pool creation succeeds only for an account on the current whitelist that authorized it; whitelist changes take effect immediately and only the listed accounts are affected. The created pool, its LP token and its staking contract have exactly the requested kind, tokens, fee, fee recipient, limits, default slippage, amplification, administrator, names and staking settings, and run the code configured in the factory at that time, and creation with invalid settings fails without trace.",
 [H, I, C], "all sequences of whitelist changes and creations, all settings inside and outside their bounds, both pool types",
 "Tests create pools with one set of parameters and check few of them.",
 [FAC, "contracts/factory/src/utils.rs"], [("creation", FAC+": create_liquidity_pool"), ("validation", FAC+": validate_pool_info/validate_bps"), ("whitelist", FAC+": update_whitelisted_accounts")], ["configuration queries of the created contracts"])
prop("P16", "A multi-hop swap equals the same swaps done one after another, atomically",
 "A multi-hop swap leaves every pool, the trader and the fee recipients exactly as the single swaps along the route would, each hop trading all that the previous one bought, under the given per-hop minimum, spread, deadline and fee limits. The contract keeps no residue of any token, the trader loses exactly the offered amount, and when any hop fails nothing at all has changed.",
 [H, I, C], "all routes of 1 to 7 hops over pools of both types, states reached by histories, all amounts and limits at their boundaries, routes that are broken, repeated or refer to missing pools",
 "Tests run fixed routes of one to three pools with reserves for which every hop yields the input amount.",
 [HOP, "contracts/multihop/src/utils.rs"], [("route execution", HOP+": swap"), ("route validation", "contracts/multihop/src/utils.rs: verify_swap")], ["balances of pools, trader, contract and fee recipients against single swaps on a copy"])
prop("P17", "Multi-hop simulation predicts the swap and its reverse names a sufficient offer",
 "A multi-hop simulation reports the final amount, and for each hop in order the commission and spread, that the single pools' simulations along the route report. A reverse simulation names the offer obtained by chaining the pools' own reverse simulations from the asked amount back to the first hop. Each commission carries the symbol of its hop's offered token in a simulation and of its asked token in a reverse simulation, and simulations change nothing.",
 [H, I, C], "all routes of 1 to 7 hops over pools of both types on states reached by histories, all amounts",
 "Tests compare a few routes with constants.",
 [HOP], [("simulation", HOP+": simulate_swap"), ("reverse", HOP+": simulate_reverse_swap")], ["simulation results against chained single-pool simulations and the executed swap"])
prop("P18", "Staked LP tokens are all there and every user's bonds are recorded exactly",
 "A staking contract always holds at least the LP tokens of all recorded stakes, the reported total is the sum of all users' stakes, and each user's list contains exactly the bonds made and not yet unbonded with their amounts and times. Unbonding returns exactly the named stake to its owner, only once, and is refused for a stake the caller does not have; bonds below the minimum are refused; nobody else's stake or balance changes.",
 [H, I, C], "all histories of bonds, unbonds, distributions and reward withdrawals by several users with equal and different amounts and times",
 "Tests follow one or two users through a fixed sequence.",
 [STK, "contracts/stake/src/storage.rs"], [("bond", STK+": bond"), ("unbond", STK+": unbond, remove_stake"), ("total", "contracts/stake/src/storage.rs: utils::increase/decrease_total_staked")], ["LP balances, query_staked, query_total_staked"])
prop("P19", "Stakers receive exactly their share of each distribution, once",
 "For each distribution of a reward token a staker is entitled to the distributed amount times own stake over the total stake at that moment, scaled by each stake's age (one sixtieth per day, at most all), rounded down. Withdrawing pays exactly the sum over all distributions not yet paid to that staker, for every reward token, and after that nothing more for them; the reported withdrawable amount is what a withdrawal pays, and unbonding first pays what is due.",
 [H, I, C], "all histories of bonds, unbonds, distributions (several tokens, several in one ledger) and withdrawals, stake ages from 0 to beyond 60 days",
 "Tests use full ages, round divisions, and one distribution between withdrawals.",
 [STK, DIS], [("entitlement", DIS+": calculate_pending_rewards"), ("payment", STK+": withdraw_rewards, unbond"), ("record", STK+": distribute_rewards")], ["reward token balances, query_withdrawable_rewards"])
prop("P20", "Rewards are fully funded and can always be withdrawn",
 "A staking contract's balance of a reward token always covers what all stakers together are still entitled to, and staked LP tokens are never paid out as rewards. Withdrawing rewards and unbonding an existing stake never fail, whatever the order of bonds, distributions and withdrawals.",
 [H, I, C], "all histories with several users, tokens, distributions in the same ledger, bonds after distributions, zero total stake, and the LP token itself as reward token",
 "Tests never combine late bonds, several reward tokens and partial unbonding.",
 [STK, DIS], [("funding", STK+": distribute_rewards"), ("payment", STK+": withdraw_rewards")], ["reward token balances against the sum of entitlements; results of withdraw_rewards and unbond"])
prop("P21", "Separate reward contract: accrual, payment and funding add up",
 "The separate reward contract never owes more than it holds: distributed rewards are what was funded and released by its schedule, which runs for the given duration from its start, each user's withdrawable amount follows the share of reward power held since each distribution scaled by stake age, and withdrawing pays exactly that amount once. What it reports as distributed, undistributed and withdrawable agrees with the tokens received and paid, bonding or unbonding never changes rewards already accrued to others, and only the staking contract's calls are accepted.",
 [H, I, C], "all histories of users joining, bonding, unbonding, funding with overlapping schedules, distributions and withdrawals",
 "Tests fund once or twice with round numbers and one or two users.",
 [SRW, SRD], [("accrual", SRD+": update_rewards, withdrawable_rewards"), ("distribution", SRW+": distribute_rewards"), ("funding", SRW+": fund_distribution_curve")], ["reward token balances, queries against a reference model"])
prop("P22", "Vested tokens unlock exactly by schedule: never early, never lost",
 "At any time the total a recipient has claimed from a schedule is at most the granted amount minus the amount the schedule still locks, and a claim pays exactly that difference minus what was claimed before. When the schedule has ended exactly the granted amount has been or can be claimed, and each schedule of each recipient is independent of all others.",
 [H, I, C], "all valid schedules (linear and piecewise with many points), all claim times including the exact step points, several schedules per recipient",
 "Tests claim at a few fixed times on two schedules.",
 [VES, CUR], [("claim", VES+": claim"), ("locked amount", CUR+": Curve::value"), ("validation", VUT+": validate_vesting_schedule")], ["token balances, query_available_to_claim, query_vesting_info"])
prop("P23", "Vesting contract holds every unclaimed grant and accepts only sound schedules",
 "The vesting contract's token balance always covers all amounts granted and not yet claimed. A schedule that is constant, anywhere increases, does not end at zero or reaches the complexity limit, a batch that is empty or names a recipient twice, and a batch the administrator cannot fund are refused without effect; any other batch is accepted and takes exactly the sum of the granted amounts from the administrator.",
 [H, I, C], "all batches of schedules valid and invalid in one respect, claims in between",
 "Tests try one invalid schedule each and never check custody after mixed operations.",
 [VES, VUT], [("creation", VES+": create_vesting_schedules"), ("validation", VUT+": validate_vesting_schedule")], ["token balances, results, state digests"])
prop("P24", "Minting through the vesting contract never exceeds the minter's capacity",
 "Only the current minter mints, each mint reduces the remaining capacity by exactly the minted amount, and no sequence of mints exceeds the capacity granted. Capacity is changed only to the amount the administrator sets, a new minter is accepted only from the current minter (or the administrator when there is none), and contracts without a minter mint nothing.",
 [H, I, C], "all sequences of mints at, below and above the remaining capacity, minter and capacity changes, by the right and wrong callers",
 "Tests mint once below and once above the capacity.",
 [VES], [("mint", VES+": mint"), ("minter", VES+": update_minter, update_minter_capacity")], ["query_minter, token balances, results"])
prop("P25", "LP token: balances conserve supply and move only as asked",
 "A transfer moves exactly its amount from the sender to the recipient and changes no other balance; only the administrator's mint creates and only the holder's burn (or an allowance's) destroys tokens, by exactly the amount given. Negative amounts and amounts above the balance are refused without effect, and no sequence makes a balance negative or overflow.",
 [H, I], "all sequences of mint, transfer, transfer_from, burn, burn_from and admin changes with amounts from negative to the largest, including self-transfers",
 "Tests run one sequence with two accounts.",
 [TOK, "contracts/token/src/balance.rs"], [("balances", "contracts/token/src/balance.rs: spend_balance, receive_balance"), ("operations", TOK+": transfer, mint, burn")], ["balances of all accounts against a reference model"])
prop("P26", "LP token allowances: spendable exactly as approved, until expiry",
 "A spender can move at most the approved amount in total, each use reduces the allowance by exactly the amount used, and a new approval replaces the old one. An allowance is worth nothing after its expiration ledger, one that would already be expired can only be zero, and allowances of other pairs of accounts are unaffected.",
 [H, I], "all sequences of approvals, spends and ledger advances around the expiration ledger",
 "Tests approve once and spend once; expiry at the exact ledger is not covered.",
 [TOK, "contracts/token/src/allowance.rs"], [("allowances", "contracts/token/src/allowance.rs: read/write/spend_allowance")], ["allowance query, transfer_from and burn_from results"])
prop("P27", "Curve library: value, validation and combination are mathematically right",
 "A curve's value at any time is the linear interpolation of its points, rounded towards the earlier bound and constant outside them, and never leaves its declared range. Validation accepts exactly well-formed curves (times strictly increasing, in step lists from above zero; monotonic as required), the combined curve's value at any time is within two units of the exact sum of the two, and the reported end, size and range are those of the curve. A value whose computation does not fit 128 bits stops, never wraps.",
 [I], "all curves of all kinds, all times including every breakpoint and its neighbours, all pairs of curves",
 "Tests evaluate a few fixed curves at a few fixed times.",
 [CUR], [("value", CUR+": Curve::value, interpolate"), ("combination", CUR+": combine, Add"), ("validation", CUR+": validate*")], ["library calls against an exact reference"])
prop("P28", "Fixed-point decimals: exact arithmetic truncated to 18 places, or a failure",
 "Every operation of the two fixed-point types returns the exact rational result truncated to 18 places (a power: within one unit per multiplication), or stops when the result or an intermediate product cannot be represented; it never wraps or returns a wrong number. Conversions to and from integers, ratios, basis points and text are exact or truncated as documented, and text round-trips.",
 [I], "all operands of both types from the smallest unit to the largest, all signs where signed, zero divisors",
 "Tests check some round operands per operation.",
 [DEC, "packages/decimal/src/decimal256.rs"], [("operations", DEC+": Mul, Div, from_ratio, checked_*"), ("256-bit", "packages/decimal/src/decimal256.rs")], ["library calls against big-integer rationals"])
prop("P29", "Trader: holds its tokens safely and trades exactly what was asked",
 "A trade by the administrator swaps exactly the given amount (or all that the contract holds of that token when none is given) in the given pool under the given limits, and the contract's balances change by exactly what the pool took and paid. A transfer out moves exactly the requested amount of the requested token to the recipient, and nothing else ever leaves the contract; its reported balances and settings are the true ones.",
 [H, I, C], "all histories of fundings, trades in pools of both types, transfers and queries, amounts at and above the balance",
 "Tests trade twice in one pool with all authorizations mocked, including those no real caller could give.",
 [TRD], [("trade", TRD+": trade_token"), ("transfer", TRD+": transfer"), ("pool authorization", TRD+": authorize_as_current_contract")], ["balances of trader contract, pool and recipient; enforced authorizations"])
prop("P30", "Live state never expires under use: every access keeps it alive",
 "Whenever an initialized contract is used, its own instance stays alive for at least 6 days and every persistent entry the call reads or writes for at least 29 days afterwards, so that a deposit, stake, grant, reward or configuration that is used in time is never archived. Queries keep alive what they read like operations do (excepted: the LP token's constant metadata).",
 [H, C], "all contracts and entry kinds, with ledgers advanced to just before the threshold between uses",
 "Tests never advance the ledger sequence and so never see an entry expire.",
 ["packages/phoenix/src/ttl.rs", "contracts/pool/src/storage.rs", "contracts/stake/src/storage.rs", "contracts/vesting/src/storage.rs", "contracts/factory/src/storage.rs"], [("bumps", "extend_ttl calls in contracts/*/src/storage.rs and contract.rs")], ["live-until ledgers of all entries after each call"])
prop("P31", "Emitted events state what really happened",
 "Every successful swap, deposit, withdrawal, bond, unbond, reward distribution, reward withdrawal, vesting claim, mint, burn, trade and pool creation publishes events that name the real caller, tokens and amounts of that operation as the balances show them. Failed operations publish nothing.",
 [H, I], "all successful pool, staking, reward, vesting, factory and trader operations in histories",
 "Tests do not look at events.",
 [POOL, STB, STK, SRW, VES, FAC, TRD], [("events", POOL+": env.events().publish"), ("events, stable", STB+": env.events().publish"), ("events, stake", STK+": env.events().publish")], ["host events against balance changes"])

TECH = "runtime monitoring of the release wasm under generated histories, online oracle (executable reference model)"
NOTES = {
 "P27": ("runtime monitoring of the library under generated inputs against an exact oracle"),
 "P28": ("runtime monitoring of the library under generated inputs against a big-integer oracle"),
}

def main():
    claimed = sys.argv[1:] or [p["id"] for p in P]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            f.write(json.dumps(q) + "\n")
    m = dict(version=1, setup_cmd="./build.sh",
        hooks=dict(guard="cfg(phoenix_verif)", enable="RUSTFLAGS='--cfg phoenix_verif' in build.sh, for the harness only; the contracts are built as shipped", source_commits=['cffa351f0305797bcab71c84520d38a660281eeb']),
        checks=[], not_applicable=[])
    for p in P:
        if p["id"] in claimed:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}",
                thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
                technique=NOTES.get(p["id"], TECH), level="exploration",
                level_note="Held on the generated executions the evidence file counts; trusts the Soroban test host, the harness's reference model and the ranges given in DESIGN.md." + p["_note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason="not claimed yet: its monitor is not built"))
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
main()
