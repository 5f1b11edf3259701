#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: run `python3 props.py` after editing."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P = []
NOTE = ("Seeded random search over whole histories of the real contracts on a simulated chain; nothing is proved. Trusted: "
        "the simulated chain (bank, wasm dispatch, replies, tokenfactory hooks, IBC acks) and the reference models in sim/src. ")

def prop(id, title, statement, over, text, why, files, mech, note="", hook=None, tech=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=hook),
                  _note=note, _tech=tech))

PAIRS = ["contracts/pair/src/contract.rs", "contracts/pair_stable/src/contract.rs",
         "contracts/pair_concentrated/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs",
         "contracts/pair_transmuter/src/contract.rs"]
PCL = ["packages/astroport_pcl_common/src/state.rs", "packages/astroport_pcl_common/src/utils.rs",
       "packages/astroport_pcl_common/src/math/math_decimal.rs", "contracts/pair_concentrated/src/contract.rs",
       "contracts/pair_concentrated/src/utils.rs"]
H3 = ["histories", "inputs", "configurations", "fault_sequences"]

prop("C01", "Pool operations move exactly the tokens they report, and failures move nothing",
     "In constant-product, stable, concentrated, transmuter and sale-tax pools an accepted deposit, swap or withdrawal changes every balance involved (pool, user, receiver, fee receivers, LP supply) by exactly the amounts it reports, takes from the user exactly what was offered, and touches no other account. Deposits and swaps whose attached coins do not match what they announce are rejected. An operation that fails, at any point of its message chain, leaves all balances and pool state as they were.",
     H3, "all sequences of operations by several users on two- and three-asset pools of each kind, native and cw20 assets of different decimals, with and without fee receivers, with injected failures and out-of-gas anywhere in the message tree",
     "Unit tests run one message against mocked balances; conservation over a history with real token transfers, hooks and mid-transaction failures is not reached.",
     PAIRS + ["packages/astroport/src/asset.rs"],
     [("funds check", "packages/astroport/src/asset.rs: assert_coins_properly_sent"), ("swap", "contracts/*/src/contract.rs: swap"), ("mint and burn", "contracts/*/src/contract.rs: provide_liquidity, withdraw_liquidity")])
prop("C02", "Swap quotes equal execution, follow the pool curve and respect user limits",
     "In every pool kind the amounts a swap pays out, charges and reports as spread are those the simulation query gives for the same state, and the price follows the pool's own curve for its current reserves and parameters. A swap that would fall short of the belief price, or exceed the spread the user allows (or the hard cap of 50 percent), is rejected, and one within those limits is accepted. Offering what a reverse quote asks for returns the wanted amount, up to rounding.",
     ["histories", "inputs", "configurations"], "all reachable pool states (amplification and gamma mid-ramp, moved price scales, skewed reserves above dust), offers from dust to most of the pool, belief prices and spread limits around the true price",
     "Unit tests check a few reserves; the quote/execution agreement must hold for each state a history reaches, including states only ramps, fee changes and repegging produce.",
     PAIRS + PCL[:3] + ["contracts/pair_stable/src/math.rs", "contracts/pair_stable/src/utils.rs"],
     [("curve", "contracts/pair/src/contract.rs: compute_swap; contracts/pair_stable/src/utils.rs: compute_swap; packages/astroport_pcl_common/src/utils.rs: compute_swap"), ("limits", "contracts/*/src/contract.rs: assert_max_spread")],
     "Curve and refusal checks are bounded to pools above dust (stable: 0.001 token per side; concentrated: gamma times each reserve at least 5e-4). ")
prop("C03", "No sequence of operations lowers what a liquidity share is worth",
     "No accepted swap, deposit or withdrawal lowers the value of one LP share measured by the pool's own invariant (root of the reserve product, stable invariant, or concentrated invariant at the price scale), beyond rounding of a few token units. Moving the price scale of a concentrated pool never takes a share below its initial value.",
     ["histories", "inputs", "configurations"], "all interleavings of operations by several users in pools above dust size, including one-sided deposits, round trips and trades while parameters ramp",
     "Value leaks show up only through combinations of states and amounts; tests check isolated examples.",
     PAIRS + PCL, [("invariant growth", "contracts/pair_stable/src/math.rs, packages/astroport_pcl_common/src/math"), ("loss guard", "packages/astroport_pcl_common/src/state.rs: update_price")],
     "Known finding: concentrated pools with gamma times reserve below the Newton tolerance do lose value. ")
prop("C04", "LP shares are minted and redeemed fairly, and redeeming is always possible",
     "A deposit mints LP tokens in proportion to the growth of the pool's invariant (net of the imbalance fee), the first deposit locks a minimum amount forever, and a withdrawal pays the pro-rata part of each reserve for the LP burned. Minimum amounts demanded by the user (LP on deposit, assets on withdrawal) and the deposit's slippage limit (constant-product and concentrated pools) are honoured, and a deposit within them is accepted. The pool's own reports (holdings, LP supply, invariant, LP value) are the actual ones. A holder can redeem at any time, including in frozen-out situations such as a dead incentives contract, extreme reserves or paused parameters.",
     H3, "all histories of deposits (balanced, one-sided, auto-staked, for another receiver), withdrawals, trades and parameter changes, with dependent contracts failing",
     "Unit tests mint and burn once; rounding direction and liveness must hold for each share and reserve size a history can reach.",
     PAIRS + ["contracts/pair_stable/src/utils.rs", "contracts/pair_concentrated/src/utils.rs", "packages/astroport/src/pair.rs"],
     [("mint", "contracts/*/src: provide_liquidity, calculate_shares"), ("burn", "contracts/*/src: withdraw_liquidity, get_share_in_assets")],
     "Known finding: the last holder of a small-gamma concentrated pool cannot leave only dust behind. ")
prop("C05", "Swap fees match the configured rate and are split exactly as configured",
     "Each swap charges exactly the fee the pool's configuration prescribes at that moment (constant-product, stable and sale-tax pools: the factory rate; concentrated pools: between mid and out fee by balance; transmuter: none). Of it the fee-share receiver gets its configured share and the protocol's fee receiver its configured part of the rest, and all that remains stays in the pool. With no fee receiver set, the pool keeps its part.",
     ["histories", "inputs", "configurations"], "all fee, fee-share and fee-receiver configurations, changed by their owners between trades, over all trade sizes",
     "Tests check the split for fixed numbers; the rate depends on reserves, ramp and configuration history.",
     PAIRS + ["contracts/factory/src/contract.rs", "packages/astroport_pcl_common/src/state.rs"], [("fee", "packages/astroport_pcl_common/src/state.rs: fee; contracts/pair*/src: compute_swap, calculate_maker_fee")])
prop("C06", "Cumulative prices grow by the pool's price times the elapsed time",
     "Between two trades the cumulative price of each asset grows by the elapsed seconds times the price the reserves give (by the curve of the constant-product, stable, sale-tax and concentrated pool respectively, at its current parameters), no matter which operations settle it in between. An operation never contradicts the reading that was possible just before it, and trades in one block cannot move that block's contribution.",
     ["schedules", "histories", "inputs"], "all schedules of operations over blocks and pauses, up to years, including several operations in one block and pools created long before first use; reserves of at least one token per side",
     "Settlement depends on which operation comes first in which block, which single-call tests do not vary.",
     PAIRS[:4] + PCL[1:2] + ["contracts/pair_stable/src/utils.rs"], [("accumulate", "contracts/*/src: accumulate_prices")],
     "Known finding: a concentrated pool settles deposits at its last trade price. ")
prop("C07", "Pool parameters change only as allowed, within limits, and ramps are linear",
     "Amplification and gamma can be changed only by the owner, only as a ramp of at least a day, of at most tenfold, within their absolute limits, and not while another ramp is less than a day old; at every moment the effective value is the linear interpolation, and stopping a ramp freezes it where it is. Fees and the other pool parameters are accepted only within their documented ranges (the mid fee never above the out fee) and take effect as set.",
     ["schedules", "histories", "inputs"], "all sequences of parameter messages by owner and strangers with times and values around every limit, and readings at any time during a ramp",
     "Interpolation, stop and restart depend on the schedule of blocks and messages; tests check a couple of points.",
     ["contracts/pair_stable/src/contract.rs", "contracts/pair_stable/src/utils.rs", "contracts/pair_concentrated/src/contract.rs", "packages/astroport_pcl_common/src/state.rs"],
     [("ramp", "packages/astroport_pcl_common/src/state.rs: promote_params, get_amp_gamma, stop_promotion; contracts/pair_stable: start_changing_amp, stop_changing_amp, compute_current_amp"), ("limits", "packages/astroport_pcl_common/src/state.rs: update_params")])
prop("C08", "Concentrated pool repegging follows its published rule",
     "The internal oracle price is the exponential moving average (by the configured half time) of the trade prices, and profit measures follow each trade. The price scale moves only when the oracle price is far enough away and accumulated profit exceeds half of the total plus the threshold, then by exactly the prescribed step, and only if enough profit is left and a share stays worth more than initially; trades below the minimum size never move it.",
     ["schedules", "histories", "inputs", "configurations"], "all trade histories over arbitrary block times and parameters, against an independent floating-point model of the rule (decisions closer than its precision are not judged)",
     "The rule is stateful over the whole trade history; tests replay single steps.",
     PCL, [("repeg", "packages/astroport_pcl_common/src/state.rs: update_price"), ("trade price", "packages/astroport_pcl_common/src/utils.rs: calc_last_price")])
prop("C09", "Recorded asset balances answer for any past block",
     "With balance tracking enabled (which cannot be undone), asking a constant-product, concentrated or sale-tax pool for an asset's balance at a past block returns what the pool held just before that block's changes; before tracking it returns nothing.",
     ["schedules", "histories"], "all histories with several operations per block, blocks without operations, and tracking switched on mid-way",
     "The answer depends on the block schedule; tests use one or two blocks.",
     [PAIRS[0], PAIRS[2], PAIRS[3]], [("history", "contracts/*/src: BALANCES snapshot map, query_asset_balances_at")])
prop("C10", "The pool price oracle answers with time-interpolated past trade prices",
     "Asking a stable or concentrated pool for the price some seconds ago returns the moving-average trade price of the recorded observation at that time, interpolated between the neighbouring ones, for any time the buffer still covers. Several trades in one block are merged into one observation by volume, an unfinished block never shows up early, and times before the first observation are refused.",
     ["schedules", "histories", "inputs"], "all trade schedules including many trades per block, dust trades, long gaps and a full ring buffer",
     "Buffer wrap-around and same-block merging need long schedules.",
     ["packages/astroport/src/observation.rs", "packages/circular_buffer/src/lib.rs", "contracts/pair_concentrated/src/utils.rs", "contracts/pair_stable/src/utils.rs"],
     [("observations", "packages/astroport/src/observation.rs: query_observation, PrecommitObservation"), ("ring buffer", "packages/circular_buffer/src/lib.rs")])
prop("C11", "The transmuter exchanges one to one and stays solvent",
     "A transmuter pool swaps any of its assets into any other at exactly one to one (after decimals, rounded down), without fees and only up to what it holds, for any number of assets. LP tokens are minted and burned one to one against normalised deposits and withdrawals, including withdrawals that name their assets, so that the LP supply never exceeds the normalised reserves.",
     H3, "all histories over two to five assets with decimals from 0 to 18",
     "The contract has no tests that run offline here; solvency is a history property.",
     ["contracts/pair_transmuter/src/contract.rs", "contracts/pair_transmuter/src/utils.rs", "contracts/pair_transmuter/src/queries.rs"],
     [("normalise", "contracts/pair_transmuter/src/state.rs, utils.rs")])
prop("C13", "Sale tax is charged exactly on the taxed direction and paid out in full",
     "In a sale-tax pool a swap offering a taxed asset first deducts exactly the configured rate of the offer and sends it to that asset's tax receiver; other directions pay no tax, and the rest is swapped on the pool curve with the usual fees and judged against the user's limits. Only the tax administrator can change rates (at most 50 percent, native assets of the pool only), receivers and the administrator; quotes include the tax.",
     ["histories", "inputs", "configurations"], "all tax configurations and changes by administrator, factory owner and strangers, interleaved with trades in both directions",
     "Tests cover one rate; the deduction must compose with fees, limits and configuration changes.",
     ["contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_xyk_sale_tax/src/state.rs", "packages/astroport/src/pair_xyk_sale_tax.rs"],
     [("tax", "contracts/pair_xyk_sale_tax/src/contract.rs: swap, sale_tax"), ("config", "packages/astroport/src/pair_xyk_sale_tax.rs: TaxConfigs")])

prop("C14", "The factory lists exactly the live pairs and only its owner changes settings",
     "The factory lists exactly the pairs that were created and not deregistered, at most one per set of assets in whatever order they are named, and lookups, every pagination and the pair's own answers agree. Pairs can be created only for known, enabled types (permissioned ones only by the owner), deregistered only by the owner, and a creation that fails leaves no trace. Only the owner changes pair types, fees (never above 100 percent) and receivers, and queries return what was set last.",
     H3, "all sequences of creations, deregistrations, configuration changes and ownership changes by owner and strangers, with colliding and reordered asset names and pair instantiation failing at any point, with up to dozens of pairs",
     "Registry consistency is a property of the history (create, fail, deregister, create again) and of every page boundary.",
     ["contracts/factory/src/contract.rs", "contracts/factory/src/state.rs", "contracts/factory/src/querier.rs", "packages/astroport/src/factory.rs"],
     [("pair registry", "contracts/factory/src/contract.rs: execute_create_pair, reply, deregister; state.rs: PAIRS, pair_key, read_pairs"), ("fees", "contracts/factory/src/contract.rs: execute_update_pair_config, query_fee_info")],
     "Known finding: two different pairs of assets whose concatenated names are equal exclude each other. ")
prop("C15", "The router delivers what its hops yield, at least the minimum, or nothing",
     "A route through the router delivers to its receiver exactly what swapping hop by hop in the pools would yield, and at least the demanded minimum, or the whole transaction is reverted. The router takes only the offer and keeps nothing of the assets along the path; malformed routes (empty, more than 50 hops, not chained, native swaps, direct internal calls) are refused, and the spread limit of a single hop is enforced. Simulated routes and reverse simulations equal what executing the pools' own quotes one after the other gives.",
     H3, "all routes of up to dozens of hops over native and cw20 assets and every pool type, including loops through the same pool, with minimums and spreads around the true amount, leftovers in the router, tokens on the path that start routes of their own while they are transferred, and failures at any message",
     "Composition over many hops and pools with shared state, and atomicity under mid-route failures, cannot be enumerated by tests.",
     ["contracts/router/src/contract.rs", "contracts/router/src/operations.rs", "packages/astroport/src/router.rs"],
     [("hops", "contracts/router/src/operations.rs: execute_swap_operation"), ("minimum", "contracts/router/src/contract.rs: execute_swap_operations, assert_minimum_receive, reply"), ("quotes", "contracts/router/src/contract.rs: simulate_swap_operations, simulate_reverse_swap_operations")])

prop("C16", "Owned contracts obey their owner only, and ownership moves in two steps",
     "Ownership of the factory, incentives, vesting, maker, coin registry, fee granter, stable and concentrated pools changes only when an account proposed by the current owner, for at most two weeks, claims it in time; the owner can replace or drop a proposal, and rights follow ownership at once (pools without an owner of their own follow the factory's owner). Messages reserved to the owner, or to a role it names (guardian, controller, granter admin, tax admin, the factory, the contract itself), are refused to everybody else, former and proposed owners included, and never refused to those entitled.",
     H3, "all histories of proposals, claims and drops at any time around their expiry, interleaved with each privileged message of each contract sent by owners, former owners, proposed owners, role holders and strangers, with transactions failing midway",
     "Tests try one wrong sender per message; who is entitled depends on the history of transfers, expiries and role changes.",
     ["packages/astroport/src/common.rs", "contracts/factory/src/contract.rs", "contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/incentives/src/utils.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/tokenomics/vesting/src/contract.rs", "contracts/periphery/fee_granter/src/contract.rs", "contracts/periphery/native_coin_registry/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_concentrated/src/contract.rs", "contracts/router/src/operations.rs"],
     [("two-step transfer", "packages/astroport/src/common.rs: propose_new_owner, claim_ownership, drop_ownership_proposal"), ("role checks", "contracts/*/src: comparisons of info.sender")],
     "Each privileged message is first tried by somebody entitled on a fork of the chain, so that a refusal is known to be about the sender. ")
prop("C17", "Stakers accrue exactly their share of each reward while staked",
     "For every history of deposits, withdrawals, claims, added, extended and removed rewards and rate changes, the rewards pending for a user, paid by a claim and paid by a withdrawal equal the user's time-weighted share of ASTRO emissions and of every external reward released while the user was staked, up to rounding down, and a claim resets them to zero. Staked amounts, pool totals, the list of stakers and the schedules reported equal what was deposited and funded. Rewards released while nobody is staked go to the first depositor, or to the owner once the reward ended.",
     H3, "all histories of several users, pools (native LP tokens), rewards (native and cw20, external ASTRO too), schedules overlapping over many weeks, removals and additions within one block, clock jumps over several schedules, and failing transactions",
     "Reward indexes are path dependent: who was synced before or after which event, in the same block or after several schedules ended, decides what is paid; only long histories against an exact accrual model reach these orders.",
     ["contracts/tokenomics/incentives/src/state.rs", "contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/incentives/src/utils.rs", "contracts/tokenomics/incentives/src/query.rs", "packages/astroport/src/incentives.rs"],
     [("indexes", "contracts/tokenomics/incentives/src/state.rs: PoolInfo::update_rewards, UserInfo::claim_finished_rewards, reset_user_index, update_and_sync_position"), ("schedules", "contracts/tokenomics/incentives/src/state.rs: PoolInfo::incentivize, deregister_reward"), ("payout", "contracts/tokenomics/incentives/src/utils.rs: claim_rewards")])
prop("C18", "The incentives contract can always pay what it owes",
     "At every moment the incentives contract holds all staked LP tokens and at least every reward owed to users, still to be released by funded schedules or booked as orphaned; nothing is paid twice, and once every schedule ended, every user left and orphaned rewards were claimed only rounding dust and payouts that the reward token itself refused remain. Adding a reward takes exactly the stated amount (plus the fee for a new reward token, which goes to its receiver), and removing one returns exactly what was not yet released.",
     H3, "all histories of staking, funding, removing and claiming with any amounts, several rewards sharing one token between pools, staking of tokens that are rewards elsewhere, and failing or refusing transfers",
     "Insolvency shows only when the last claimant is refused, after histories in which two features (orphaned rewards and removal, bypassed schedules and re-adding) met.",
     ["contracts/tokenomics/incentives/src/state.rs", "contracts/tokenomics/incentives/src/utils.rs", "contracts/tokenomics/incentives/src/execute.rs"],
     [("removal", "contracts/tokenomics/incentives/src/state.rs: PoolInfo::deregister_reward, PoolInfo::save"), ("funding", "contracts/tokenomics/incentives/src/utils.rs: incentivize"), ("orphans", "contracts/tokenomics/incentives/src/utils.rs: claim_orphaned_rewards")])
prop("C19", "Stakers can always leave, whatever reward tokens do",
     "A user can withdraw staked LP tokens, all or part, at any time and gets exactly them, together with the rewards due, even when external reward tokens refuse transfers or (with a transfer gas limit set) burn all gas: such a failure costs only that reward. Deregistered pools, blocked tokens and ended or removed rewards never lock a position, and nobody can withdraw more than they staked.",
     ["histories", "fault_sequences", "schedules", "inputs"], "all histories as in C17 with reward tokens that start and stop failing, in different ways, at any moment, assuming the vesting contract can pay ASTRO",
     "Depends on which external token fails at which moment, and on index states that make arithmetic panic much later.",
     ["contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/incentives/src/utils.rs", "contracts/tokenomics/incentives/src/reply.rs", "contracts/tokenomics/incentives/src/state.rs", "packages/astroport/src/asset.rs"],
     [("withdraw", "contracts/tokenomics/incentives/src/execute.rs: withdraw"), ("isolation", "contracts/tokenomics/incentives/src/reply.rs: reply; packages/astroport/src/asset.rs: into_submsg")])
prop("C20", "ASTRO emissions go to active pools by allocation points, within the rate",
     "Active pools are exactly those set up last minus those deregistered or blocked since, the total of allocation points is their sum, each receives its part of the configured emission per second, and the parts never exceed it. Only the owner (or controller, guardian, factory for their actions) may change pools, rates, blocked tokens, rewards and configuration; pools with blocked tokens or pair types cannot be set up, blocked tokens cannot be rewards, and at most five external reward tokens besides ASTRO are added per pool.",
     H3, "all histories of pool set-ups, rate changes, blocked tokens and pair types, deregistrations and permissionless deactivations, by every kind of sender, in any order and with failing transactions",
     "The list of pools, the total of points and the rates stored in pools are kept in step by five different actions, whose orders tests cannot sample.",
     ["contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/incentives/src/utils.rs", "contracts/tokenomics/incentives/src/state.rs", "contracts/factory/src/contract.rs"],
     [("set-up", "contracts/tokenomics/incentives/src/execute.rs: setup_pools, set_tokens_per_second, update_blocked_pool_tokens"), ("deactivation", "contracts/tokenomics/incentives/src/utils.rs: deactivate_pool, deactivate_blocked_pools")])

prop("C12", "The xASTRO pair swaps at the staking rate, and its quotes are what staking gives",
     "Swapping ASTRO in the xASTRO pair stakes it and swapping xASTRO unstakes it: the receiver gets exactly what the staking contract gives, and the simulation and the amounts the swap reports equal it, in every state of the staking contract (before anybody staked, after ASTRO was sent to it directly). Reverse quotes match up to rounding. The pair keeps nothing, holds no liquidity, and refuses anything else: other assets, mismatched funds, liquidity operations.",
     H3, "all histories of staking, unstaking and donations directly and through the pair, with any amounts, receivers, the tracker or a denom failing, and failures at any message",
     "The pair predicts what another contract will do; the prediction must agree in every state the other contract can reach.",
     ["contracts/pair_xastro/src/contract.rs", "contracts/pair_xastro/src/queries.rs", "contracts/tokenomics/staking/src/contract.rs"],
     [("swap", "contracts/pair_xastro/src/contract.rs: swap, predict_stake, predict_unstake"), ("quotes", "contracts/pair_xastro/src/queries.rs: query")])
prop("C21", "xASTRO is always backed, and its value in ASTRO never falls",
     "Staking mints xASTRO in proportion to the ASTRO held, leaving pays ASTRO in proportion to the xASTRO burned, both rounded down, to the named receiver or through the named hook, and nobody else's balance changes; the first stake locks 1000 xASTRO for good. The ASTRO backing one xASTRO never decreases, whoever stakes, leaves or donates, so all holders can leave at any time. Anything failing, including the hook, leaves everything as it was, and queries and responses tell the true amounts.",
     H3, "all histories of staking, leaving, hooks that leave or swap again within the transaction, and donations (also before the first stake), with any amounts, receivers and failures at any message",
     "A rate guarantee is about all orders of stakes, exits and donations with adversarial amounts, not one example.",
     ["contracts/tokenomics/staking/src/contract.rs", "packages/astroport/src/staking.rs"],
     [("enter", "contracts/tokenomics/staking/src/contract.rs: execute_enter"), ("leave", "contracts/tokenomics/staking/src/contract.rs: execute_leave")])
prop("C22", "Recorded balance and supply history equals what balances really were",
     "For every address and every past second (or block), the tracker reports the balance the address had when that second (block) began, and for the present or future the current one; the supply likewise (a burn shows from the next transfer on, and at once in the staking contract). The staking contract's historic queries agree, recorded balances add up to the recorded supply, transfers to oneself change nothing, other denoms are refused, and migrating the tracker from its first release keeps the history.",
     ["histories", "schedules", "fault_sequences", "inputs"], "all histories of mints, burns, transfers (several within one second, block or transaction), with seconds and blocks advancing unevenly, the tracker failing for a while and transactions failing at any message",
     "Votes are counted from this history; what is wrong shows only for particular orders within one second and queries at particular moments.",
     ["contracts/periphery/tokenfactory_tracker/src/contract.rs", "contracts/periphery/tokenfactory_tracker/src/query.rs", "contracts/tokenomics/staking/src/contract.rs"],
     [("recording", "contracts/periphery/tokenfactory_tracker/src/contract.rs: track_balances"), ("queries", "contracts/periphery/tokenfactory_tracker/src/query.rs: balance_at, total_supply_at"), ("supply after leaving", "contracts/tokenomics/staking/src/contract.rs: execute_leave")])

prop("C23", "The cw20 xASTRO token adds up and remembers every balance",
     "Balances always add up to the total supply, which starts as the sum of the initial balances and then changes only when the minter mints (never beyond the cap) or burns; transfers, sends and allowances move exactly what was asked or nothing, and never more than the allowance or after it expired. For any block, the balance history answers what an address had when that block began and the supply history what the supply was when that block ended, however many changes fell into one block. Listings page through every account and allowance exactly once.",
     ["histories", "schedules", "inputs", "fault_sequences"], "all histories of mints, burns, transfers, sends and allowance changes by any account (several per block), initial balances and caps, receivers failing and transactions failing at any message",
     "Votes and distributions are counted from this history; mistakes show only for particular orders within a block and queries at particular heights.",
     ["contracts/tokenomics/xastro_token/src/contract.rs", "contracts/tokenomics/xastro_token/src/state.rs"],
     [("transfers", "contracts/tokenomics/xastro_token/src/contract.rs: execute_transfer"), ("supply history", "contracts/tokenomics/xastro_token/src/state.rs: capture_total_supply_history"), ("initial balances", "contracts/tokenomics/xastro_token/src/contract.rs: create_accounts")])

prop("C24", "Vesting releases exactly what its schedules say and always covers it",
     "At any moment an account can claim exactly what its schedules have released so far (nothing before the start, linearly from the start amount to the end amount, all of it from the end on) less what it claimed already, and what is released never shrinks. The contract's token balance is always everything registered and neither claimed nor withdrawn (plus donations), registering takes exactly the scheduled sum and only from the owner, withdrawing from an active schedule takes only what is not yet released, and no account holds more than 8 schedules. Refused or failing calls change nothing, and converting to new ASTRO on migration keeps all of this.",
     ["histories", "schedules", "inputs", "fault_sequences"], "all schedules and histories of registrations, claims, withdrawals and migration at any moments, with native and cw20 tokens, receivers blocked and transactions failing at any message",
     "Rounding and the order of claims, registrations and withdrawals matter at every second of every schedule.",
     ["contracts/tokenomics/vesting/src/contract.rs", "contracts/tokenomics/vesting/src/state.rs"],
     [("released amount", "contracts/tokenomics/vesting/src/contract.rs: compute_available_amount"), ("registration", "contracts/tokenomics/vesting/src/contract.rs: register_vesting_accounts"), ("withdrawal", "contracts/tokenomics/vesting/src/contract.rs: withdraw_from_active_schedule"), ("migration", "contracts/tokenomics/vesting/src/contract.rs: migrate")])

prop("C25", "Collected fees become ASTRO and go out in exactly the configured shares",
     "A collection swaps for each listed asset exactly its limit or the maker's whole balance, along the configured bridges, the default bridge or a direct pool, until only ASTRO is left, and no other asset of the maker is touched. All ASTRO is then paid out: the second receiver's cut, the governance percentage of the rest, the dev fund's share (swapped to its asset; it gets the proceeds of that swap and nothing else), and all that remains to staking. Before rewards are enabled nothing is paid out; what was held then is released evenly over the configured blocks. If any part fails, nothing moves.",
     ["histories", "configurations", "inputs", "fault_sequences"], "all pool graphs, bridges, shares, fee amounts, limits and orders of collections, with prices moving, pools drained, tokens frozen, receivers failing and transactions failing at any message",
     "The outcome depends on the whole path through several contracts and on what the maker happens to hold; tests fix one path.",
     ["contracts/tokenomics/maker/src/contract.rs", "contracts/tokenomics/maker/src/utils.rs", "contracts/tokenomics/maker/src/reply.rs"],
     [("collection", "contracts/tokenomics/maker/src/contract.rs: collect, swap_assets"), ("shares", "contracts/tokenomics/maker/src/contract.rs: distribute"), ("dev fund", "contracts/tokenomics/maker/src/reply.rs: reply")])

prop("C26", "The maker keeps its limits: cooldown, seizing, configuration, inner calls",
     "Fees are collected at most once per cooldown period; seizing sends only listed assets, at most the limit or the balance, to the configured receiver and nothing else leaves; swapping bridge assets and distributing can only be called by the contract itself. Only the owner changes settings, enables rewards (once) or sets bridges, and only to valid values: governance percent at most 100 (exactly 100 without staking), spread above 0 and at most 50%, second cut 1-50%, cooldown 30-600 s, dev share above 0 and at most 100%, bridges that lead to ASTRO through existing pools. Queries report exactly the settings in force.",
     ["histories", "configurations", "schedules", "inputs"], "all histories of collections, seizures and updates (valid or not) by any account at any moments, with transactions failing at any message",
     "Anyone may call the maker at any moment; limits must hold in every order of calls and updates.",
     ["contracts/tokenomics/maker/src/contract.rs", "contracts/tokenomics/maker/src/utils.rs"],
     [("cooldown", "contracts/tokenomics/maker/src/contract.rs: collect"), ("seizing", "contracts/tokenomics/maker/src/contract.rs: seize"), ("settings", "contracts/tokenomics/maker/src/contract.rs: update_config"), ("bridges", "contracts/tokenomics/maker/src/utils.rs: validate_bridge")])

prop("C27", "Old ASTRO converts to new ASTRO one to one and can only leave to be burned",
     "Converting takes exactly the old ASTRO given (only the configured token, only from its real holder) and pays exactly as much new ASTRO to the named receiver, or to the sender; otherwise nothing happens. Old ASTRO held by a converter leaves only in whole: burned (cw20), or sent over the configured channel to the configured burn address with a timeout of 120-600 s from now (300 by default), after which it can be sent again. A deprecated pair turned into a wrapper converts at the same rate, quotes one to one for old to new only, reports empty pools, keeps nothing and refuses everything else; only pairs of exactly old and new ASTRO from known versions can be upgraded, and converters only be created with consistent settings.",
     ["histories", "configurations", "schedules", "fault_sequences"], "all histories of conversions, swaps, forged hooks, burns, transfers, timeouts, donations and upgrades on hub, outpost and Neutron, with transactions failing at any message, coins frozen, accounts blocked and IBC fees changing",
     "Holders rely on a fixed rate forever; the converter must hold up against any sender, receiver, coin and relayer timing.",
     ["contracts/periphery/astro_converter/src/contract.rs", "contracts/periphery/astro_converter_neutron/src/contract.rs", "contracts/pair_astro_converter/src/contract.rs"],
     [("conversion", "contracts/periphery/astro_converter/src/contract.rs: convert, cw20_receive"), ("burning", "contracts/periphery/astro_converter/src/contract.rs: burn, ibc_transfer_for_burning"), ("Neutron fees", "contracts/periphery/astro_converter_neutron/src/contract.rs: ibc_transfer_for_burning"), ("wrapper", "contracts/pair_astro_converter/src/contract.rs: swap, migrate")])

prop("C28", "In-place upgrades keep every record and accept known releases only",
     "Migrating the factory, coin registry, router, incentives, maker, concentrated pool, oracle, staking, tracker, xASTRO token, or an XYK pair (to the sale-tax pair), succeeds exactly from the releases the code names and leaves every stored record, balance and answer as it was, also where the earlier release stored it in another layout (factory pair types, maker configuration, oracle prices), and records the new release. Only what the release introduces takes new values: those of a valid migration message (tracker configuration and time unit, maker cooldown and second receiver, sale taxes and their admin) or a fixed start (pairs not permissioned, no development fund, collection time now, nothing seizable). Holders can use after the upgrade what they held before; a failed upgrade changes nothing.",
     ["histories", "configurations", "fault_sequences"], "upgrades at any point of histories of trades, deposits, staking, transfers, configuration changes, pending ownership proposals and price updates, from every supported release and from unsupported releases and contract names, with valid and invalid messages and transactions failing midway",
     "A migration runs once, on state nobody rehearsed with: what it drops or relabels depends on the history before it; the tests migrate a few fresh contracts.",
     ["contracts/factory/src/migration.rs", "contracts/factory/src/contract.rs", "contracts/tokenomics/maker/src/migration.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/periphery/oracle/src/contract.rs", "contracts/periphery/tokenfactory_tracker/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/tokenomics/incentives/src/migrate.rs", "contracts/tokenomics/staking/src/migrate.rs", "contracts/tokenomics/xastro_token/src/contract.rs", "contracts/router/src/contract.rs", "contracts/pair_concentrated/src/contract.rs", "contracts/periphery/native_coin_registry/src/contract.rs"],
     [("release gate", "contracts/*/src: migrate"), ("old layouts", "contracts/factory/src/migration.rs; contracts/tokenomics/maker/src/migration.rs; contracts/periphery/oracle/src/migration.rs; contracts/pair_xyk_sale_tax/src/contract.rs: migrate")],
     "The tracker and the XYK pair run the published earlier release before the upgrade; the other earlier layouts are written by the harness. The vesting and converter-pair upgrades are decided under C24 and C27. ")

prop("C29", "The periodic oracle reports the pair's average price over its last full period",
     "Anybody can update the oracle once a day has passed since its last update, and nobody earlier. Consulting it values an amount at the growth of the pair's cumulative price between its last two updates divided by the seconds between them (for pools whose price is per whole token, converted to smallest units), a price within those the pool had in between; without an average (before the first update, or when it is zero) it values the amount at what one whole token trades for now. The answer does not move between updates, and tokens outside the pair have no price.",
     ["schedules", "histories", "inputs"], "all histories of trades, deposits, fee changes and updates at any time, over constant-product, sale-tax, stable and concentrated pools with tokens of equal and different decimals; the bound by the pool's prices where the pool settled its own reading under unchanged parameters",
     "The average depends on when updates and trades fall; the tests use one schedule with six-decimal tokens.",
     ["contracts/periphery/oracle/src/contract.rs", "contracts/periphery/oracle/src/querier.rs"],
     [("average", "contracts/periphery/oracle/src/contract.rs: update"), ("valuation", "contracts/periphery/oracle/src/contract.rs: consult")],
     "Known finding: averages of stable and concentrated pools are not converted for tokens of different decimals. ")
prop("C30", "The coin registry gives each coin the decimals last set by someone entitled",
     "The owner sets or changes and removes the decimals (0 to 18) of any coins; anyone else can only register coins not yet registered, by sending some of each, and gets all funds back at once. A request with a duplicate, unknown (on removal) or invalid entry changes nothing. Queries, listings of any page size and the decimals other contracts read through the factory always show exactly the registered coins.",
     ["histories", "inputs"], "all histories of additions, registrations and removals by any account with any coins and funds, with transactions failing at any message and coins frozen",
     "Pools take the decimals of native coins from here; a wrong or overwritten entry misprices every pool created afterwards.",
     ["contracts/periphery/native_coin_registry/src/contract.rs", "packages/astroport/src/native_coin_registry.rs"],
     [("registering", "contracts/periphery/native_coin_registry/src/contract.rs: register_decimals, inner_add"), ("listing", "contracts/periphery/native_coin_registry/src/contract.rs: query_native_tokens")])

prop("C31", "Fee grants are given, listed and revoked only by owner or admins, and paid for",
     "Only the owner and at most two admins grant, revoke and transfer; only the owner changes admins. A grant gives exactly the stated allowance in the gas coin, at most one per grantee, paid by exactly that amount unless bypassed; revoking ends it, even when it was used up, after which a new one can be given; transfers send exactly the amount to the receiver named or the sender. The listed grants are exactly those given and not revoked.",
     ["histories", "inputs"], "all histories of grants, revocations, spending of allowances, transfers and admin changes by any account, with transactions failing at any message",
     "Contracts have their fees paid from this account; the books must agree with the chain's allowances in every order of operations.",
     ["contracts/periphery/fee_granter/src/contract.rs", "contracts/periphery/fee_granter/src/state.rs", "contracts/periphery/fee_granter/src/query.rs"],
     [("granting", "contracts/periphery/fee_granter/src/contract.rs: grant"), ("revoking", "contracts/periphery/fee_granter/src/contract.rs: revoke"), ("admins", "contracts/periphery/fee_granter/src/state.rs: update_admins_with_validation")])

prop("C32", "The admin-list proxy acts only for its admins, and freezing is final",
     "The proxy carries out exactly the messages an admin gives it, all or none, and nothing for anyone else. Only an admin changes the list of admins, as given, and only while the list is mutable; after freezing, the list never changes again. Queries report exactly the list and who may execute.",
     ["histories", "inputs"], "all histories of executions (including calls to itself and chain-specific messages), freezes and admin changes by any account, with transactions failing at any message",
     "Contracts owned by the proxy are as safe as its admin list.",
     ["contracts/whitelist/src/contract.rs"],
     [("execution", "contracts/whitelist/src/contract.rs: execute"), ("freezing", "contracts/whitelist/src/contract.rs: execute_freeze, execute_update_admins")])

#MORE

def main():
    P.sort(key=lambda p: p["id"])
    with open(f"{H}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="bash ./setup.sh", checks=[
        dict(property=p["id"], quick_cmd=f"bash ./check {p['id']} quick", thorough_cmd=f"bash ./check {p['id']} thorough",
             technique=p["_tech"] or "deterministic simulation with fault injection: seeded search over transaction schedules and faults against a reference model",
             level="exploration", level_note=NOTE + p["_note"]) for p in P],
        not_applicable=[],
        notes="No hooks in /repo are needed: contracts are driven through the cosmwasm Deps/Env seams they already have.")
    json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
    open(f"{H}/MANIFEST.json", "a").write("\n")

main()
