#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text stays readable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
    assert len(title)<=80,(id,len(title))
    P.append(d)

HIST="every history of restaking, services, operators, pools, rewards and governance messages, interleaved with block boundaries and time jumps"

prop("R01","A target's recorded stake is exactly what its delegators hold",
 "For every pool, operator and service, and after every transaction and block, the recorded total tokens and total shares equal, denomination by denomination, the sum over its delegators, and each delegator's stake equals what it delegated minus what it undelegated. Nothing except delegating to or undelegating from a target changes its stake or anyone's delegation: profile edits, status changes, admin transfers, parameter and accreditation changes leave them untouched.",
 ["histories"],HIST+", with any number of users and targets",
 "Unit tests call one handler on a hand-built state; the totals can only drift through interplay of several handlers (an edit between a delegation and an undelegation, many delegators, multiple denominations), which needs long mixed histories and an independent ledger.",
 ["x/restaking/keeper/pool_restaking.go","x/restaking/keeper/operator_restaking.go","x/restaking/keeper/service_restaking.go","x/restaking/keeper/unbond.go","x/pools/types/models.go","x/operators/types/models.go","x/services/types/models.go"],
 [("add/remove tokens and shares on a target","x/pools/types/models.go, x/operators/types/models.go, x/services/types/models.go"),("delegation record update","x/restaking/keeper/keeper.go"),("undelegation","x/restaking/keeper/unbond.go")],
 [("target tokens / delegator shares","total stake and issued shares of a pool, operator or service","x/*/types/models.go"),("delegations","shares of one user in one target","x/restaking/keeper/alias_functions.go")],
 ["after every message and block: target queries, delegation queries"])

prop("R02","Restaked and unbonding coins stay fully backed and are never lost",
 "At every moment each pool, operator and service account holds at least the stake recorded for it plus every unbonding amount it still owes, and no two of them share an account. For each user, wallet balance plus delegated plus unbonding amounts is changed by restaking operations only through explicit fees and reward payouts: delegating moves exactly the requested coins out of the wallet, undelegating moves nothing until maturity. In particular no target may cease to exist in a way that strands coins users have in it.",
 ["histories"],HIST,
 "Conservation is a relation between bank balances and restaking records over an entire history; tests check single transfers and never track every coin across delegation, deletion, unbonding and maturity.",
 ["x/restaking/keeper/keeper.go","x/restaking/keeper/unbond.go","x/restaking/keeper/pool_restaking.go","x/services/keeper/services.go","x/operators/keeper/operators.go"],
 [("coins moved on delegation","x/restaking/keeper/keeper.go PerformDelegation"),("coins returned on completion","x/restaking/keeper/unbond.go"),("removal of targets","x/services/keeper/services.go, x/operators/keeper/operators.go")],
 [("target account balance","coins escrowed by a target","bank module"),("unbonding entries","amounts owed to users","x/restaking/keeper/alias_functions.go")],
 ["bank balances vs. restaking records after every message and block"])

prop("R03","Undelegated coins are paid back exactly once, in full, and on time",
 "Every accepted undelegation produces exactly one payout of exactly the undelegated coins to the undelegating account, made at the end of the first block whose time is not earlier than acceptance time plus the unbonding period in force at acceptance; never earlier, never twice, never skipped. This holds for any number of undelegations by the same user from the same or different targets in the same or different blocks, however many mature together, and whatever happens to the target or to the parameters in between.",
 ["histories","schedules"],"every sequence of undelegations, placements of block boundaries and block times (including several maturing in one block, or none for a long time), and changes to the unbonding period",
 "Tests exercise one entry maturing alone; duplicates in the maturity queue, merging of entries of one block, and gaps in block time only show up in multi-undelegation schedules.",
 ["x/restaking/keeper/unbond.go","x/restaking/abci.go","x/restaking/types/models.go"],
 [("maturity queue","x/restaking/keeper/unbond.go DequeueAllMatureUBDQueue"),("completion","x/restaking/keeper/unbond.go CompleteUnbonding"),("entry merging","x/restaking/types/models.go AddEntry")],
 [("unbonding queue","who has something maturing at a time","x/restaking/keeper/unbond.go"),("unbonding entries","amounts and completion times","x/restaking/types/models.go")],
 ["block-by-block payouts in bank balances, unbonding queries"])

prop("R04","Only admissible restaking requests are accepted, and all of those are",
 "A delegation is accepted exactly when the delegator owns the coins, every denomination is restakable under the global allow list (and under the service's own list, when delegating to a service), and the operator or service target exists and is active; pool delegations go to the one pool of that denomination, created on first use with a fresh id. An undelegation is accepted exactly when the user's stake in that target covers the amount in every denomination, whatever the status of the target.",
 ["inputs","histories"],"every delegation/undelegation request (single and multi-denomination, zero, excessive, unknown target) in every reachable parameter and target state",
 "The space is the product of request shape, global and per-service allow lists, target status and prior stake; tests sample a handful of points and check mostly single-denomination requests.",
 ["x/restaking/keeper/msg_server.go","x/restaking/keeper/pool_restaking.go","x/restaking/keeper/operator_restaking.go","x/restaking/keeper/service_restaking.go","x/restaking/keeper/unbond.go","x/pools/keeper/pools.go"],
 [("denomination checks","x/restaking/keeper/params.go, service_restaking.go"),("unbond validation","x/restaking/keeper/unbond.go ValidateUnbondAmount"),("pool creation","x/pools/keeper/pools.go")],
 [],["accept/reject decision of every message against a reference predicate"])

prop("R05","Begin- and end-block processing never fails",
 "No sequence of user or governance messages, prices, parameter changes and block times can bring the chain into a state where processing the beginning or end of a block returns an error or panics. Scheduled work that cannot be carried out (a service that no longer exists, nothing to pay, no price) is skipped instead.",
 ["histories","configurations"],"every message history, including deletions, deactivations, parameter and price changes, followed by any block time",
 "A chain halt is a property of reachable states under composition; tests run the block hooks on states built by one module at a time.",
 ["x/restaking/abci.go","x/rewards/keeper/abci.go","x/rewards/keeper/allocation.go","x/rewards/keeper/rewards_plan.go","x/operators/abci.go","x/liquidvesting/abci.go","app/modules.go"],
 [("unbonding completion","x/restaking/abci.go"),("rewards allocation and plan termination","x/rewards/keeper/allocation.go"),("operator inactivation","x/operators/abci.go"),("burn completion","x/liquidvesting/abci.go")],
 [],["return value / panic of every begin and end block of the assembled application"])

prop("R06","Only the rightful party can change an object; others change nothing",
 "Editing, activating, deactivating, transferring, deleting or configuring a service or operator, its parameters, relations and reward plans succeeds only for its current admin; accreditation and every module parameter change succeeds only for governance; a user can only move its own stake, preferences and rewards. An address written in capitals denotes the same account: such a message is either refused or acts for that very account. A rejected message leaves the state and all balances exactly as they were.",
 ["inputs","histories"],"every message kind signed by every kind of account (current admin, former admin, other admin, plain user, governance, module account) in every reachable state",
 "Tests check one wrong signer per message on a fresh object; former admins after transfers, admins of another object with the same id, and combinations with status are not sampled.",
 ["x/services/keeper/msg_server.go","x/operators/keeper/msg_server.go","x/restaking/keeper/msg_server.go","x/rewards/keeper/msg_server.go","x/assets/keeper/msg_server.go","x/liquidvesting/keeper/msg_server.go","x/pools/keeper"],
 [("admin checks","x/*/keeper/msg_server.go"),("authority checks","x/*/keeper/msg_server.go")],
 [],["accept/reject of every message; full state digest before and after a rejection"])

prop("R07","Service lifecycle: statuses, ids, fees and accreditation follow the rules",
 "A registered service gets a fresh, never reused, increasing id, starts in the created state, and its creator pays exactly the fee offered, which must reach the configured fee in one of its denominations (nothing is charged when no fee is configured); it becomes active only from created or inactive, inactive only from active, and can be deleted only while not active and without delegations or unbondings; accreditation is set and revoked only by governance. Every edit changes exactly the requested fields (unchanged ones keep their value) and all else about the service persists.",
 ["histories"],"every history of service messages by any accounts with any fee configuration",
 "Tests check each transition from one prepared state; wrong transitions, repeated transitions and field retention after multiple edits require histories compared with a reference state machine.",
 ["x/services/keeper/msg_server.go","x/services/keeper/services.go","x/services/types/models.go"],
 [("status transitions","x/services/keeper/services.go"),("id sequence","x/services/keeper/services.go"),("update","x/services/types/models.go")],
 [("service record","profile, status, admin, accreditation, address","x/services/types/models.go")],["service queries after each message"])

prop("R08","Operator lifecycle: statuses, ids, fees and timed inactivation",
 "A registered operator gets a fresh, never reused, increasing id, starts active, and its creator pays exactly the fee offered, which must reach the configured fee in one of its denominations; deactivation (only from active) puts it in the inactivating state and it becomes inactive at the start of exactly the first block at or after the deactivation time plus the period configured then, unless reactivated (only possible from inactive); deletion is possible only while inactive and without delegations or unbondings. Edits and commission parameters change exactly what was requested and persist until the operator becomes inactive, which clears its commission.",
 ["histories","schedules"],"every history of operator messages and block times, with parameter changes while inactivations are pending",
 "Timing relative to block times, pending inactivations at deletion/reactivation and parameter changes in between need schedules; tests check a single inactivation.",
 ["x/operators/keeper/msg_server.go","x/operators/keeper/operators.go","x/operators/abci.go","x/operators/keeper/alias_functions.go"],
 [("inactivation queue","x/operators/keeper/alias_functions.go"),("completion","x/operators/abci.go"),("status transitions","x/operators/keeper/operators.go")],
 [("operator record","profile, status, admin","x/operators/types/models.go"),("inactivation queue","time at which operator becomes inactive","x/operators/keeper")],["operator queries after each message and block"])

prop("R09","Service-operator-pool security relations reflect exactly the messages sent",
 "The services an operator has joined, the operators a service allows, and the pools a service borrows security from are exactly the result of the accepted join/leave, allow/disallow and borrow/cease messages, with duplicates and unknown members rejected. An empty allow list admits every operator and no pool list admits every pool; whenever removing an operator from the system empties a non-empty allow list, the service must not silently become open to everybody but is deactivated.",
 ["histories"],HIST+" with several operators, services and pools",
 "Relations between many-to-many ids are only wrong for particular id combinations and orders of deletion; tests use single ids.",
 ["x/restaking/keeper/msg_server.go","x/restaking/keeper/service_restaking.go","x/restaking/keeper/operator_restaking.go","x/restaking/keeper/operators_hooks.go","x/restaking/keeper/services_hooks.go"],
 [("join/leave","x/restaking/keeper/operator_restaking.go"),("allow list","x/restaking/keeper/service_restaking.go"),("clean-up on deletion","x/restaking/keeper/operators_hooks.go, services_hooks.go")],
 [("joined services","operator to services","x/restaking/keeper/keeper.go"),("allow list / securing pools","service to operators/pools","x/restaking/keeper/keeper.go")],["relation queries in both directions"])

prop("R10","Removing a service or operator leaves nothing dangling behind",
 "After a service or operator is deleted no relation, parameter, allow-list, denomination restriction, pending inactivation, accreditation preference or queue entry refers to it, no user stake or unbonding amount remains attached to it, and later operations by others are unaffected. Rewards already earned by its delegators and its admin's commission are paid out or still claimable.",
 ["histories"],"every history in which services and operators with any relations, stakes, unbondings, parameters, reward plans and preferences are deleted",
 "Dangling references come from what other modules stored before deletion; module-level tests delete freshly created objects without cross-module state.",
 ["x/restaking/keeper/operators_hooks.go","x/restaking/keeper/services_hooks.go","x/rewards/keeper/hooks.go","x/rewards/keeper/target.go","x/operators/keeper/operators.go","x/services/keeper/services.go"],
 [("deletion hooks","x/restaking/keeper/*_hooks.go, x/rewards/keeper/hooks.go"),("removal","x/operators/keeper/operators.go, x/services/keeper/services.go")],
 [],["queries and exported state after every deletion"])

prop("R11","Exported state re-imports to an equivalent chain",
 "At any block boundary the exported state of the restaking-related modules passes validation, can be imported into a new chain with the same balances, exports again identically, and from then on the new chain accepts the same messages, pays the same unbondings and rewards at the same time, and assigns the same fresh ids (services, operators, pools, plans) as the original would have, and unbonding ids that no pending unbonding has. The same holds for the export command of the daemon, both for the next height and for a restart at height zero; exporting changes nothing.",
 ["histories"],"every reachable state (with pending unbondings, queues, plans, relations, preferences, pending burns, deposits) and every continuation",
 "Tests export hand-written states of one module; omissions appear only for states reached through histories and only when the re-imported chain is continued.",
 ["x/restaking/keeper/genesis.go","x/services/keeper/genesis.go","x/operators/keeper/genesis.go","x/pools/keeper/genesis.go","x/rewards/keeper/genesis.go","x/assets/keeper/genesis.go","x/liquidvesting/keeper/genesis.go"],
 [("export/import per module","x/*/keeper/genesis.go"),("genesis validation","x/*/types/genesis.go")],
 [],["exported state, second export, lock-step continuation of both chains"])

prop("R12","Queries report the actual state completely and without duplicates",
 "Every list query of the restaking, services, operators, pools, rewards, assets and liquid-vesting modules returns, over all pages and for any page size, direction or offset, exactly the matching records once each (offsets into the filtered list of a service's operators excepted: they count unfiltered records); filters by user, target or other key return exactly the subset of the unfiltered records. Single-record queries agree with the list queries, and parameter queries return the current parameters.",
 ["inputs","histories"],"every reachable state and every combination of filter and pagination",
 "Tests query tiny fixed states with one or two pages; prefix collisions between ids and filters, wrong index use and page-boundary losses depend on populations and page sizes.",
 ["x/restaking/keeper/grpc_query.go","x/services/keeper/grpc_query.go","x/operators/keeper/grpc_query.go","x/pools/keeper/grpc_query.go","x/rewards/keeper/grpc_query.go","x/liquidvesting/keeper/grpc_query.go","x/assets/keeper/grpc_query.go"],
 [("paginated queries","x/*/keeper/grpc_query.go"),("secondary indexes","x/restaking/types/keys.go")],
 [],["query servers of the running application"])

prop("W01","The rewards pool can always pay everything that has been earned",
 "At every moment the account backing distributed rewards holds at least the total of all unpaid rewards and commissions, so that all delegators and operators can withdraw in any order without any withdrawal failing for lack of funds. Each reward plan pays out only from its own funds: nothing is created and no plan, user or deposit funds the rewards of another.",
 ["histories"],HIST+", with any plans, prices, weights, commissions, preferences and claim orders",
 "Solvency failures come from rounding and mismatch between shares used when allocating and when paying; they need many delegators, several denominations and preference changes, then an adversarial claim order.",
 ["x/rewards/keeper/allocation.go","x/rewards/keeper/delegation.go","x/rewards/keeper/invariants.go","x/rewards/keeper/withdraw.go"],
 [("outstanding rewards","x/rewards/keeper/allocation.go"),("withdrawal","x/rewards/keeper/withdraw.go, delegation.go")],
 [("outstanding rewards","rewards owed per target","x/rewards/keeper/keeper.go")],["module balance vs. outstanding; withdraw-everything replay on a forked state"])

prop("W02","Each block allocates exactly what active reward plans promise",
 "For every plan that is running at the block time and whose service is active, the amount taken from the plan is exactly its daily amount prorated by the time since the last allocation (in milliseconds, truncated to whole tokens; nothing is taken when its funds do not cover it or nobody is eligible) and is split between pools, operators and users of the service by their weights, and inside each category by the plan's distribution rule over exactly the eligible targets (restakable denominations, allowed and joined active operators, securing pools, trusting users) valued at current asset prices. Operators receive their commission and the rest goes to their delegators; rounding dust never exceeds a few base units, save for targets worth so little that their value itself shows the truncation to 10^-18. This holds as long as amounts and values fit the chain's decimal arithmetic (about 2^200); beyond it the plan is skipped.",
 ["inputs","histories"],"every combination of plans, distribution types and weights, stakes, prices, commissions, eligibility relations and elapsed times",
 "The formula has many inputs (eligibility sets, values, three distribution types, elapsed time) and tests fix round numbers for a few; an independent re-computation on random states compares every term.",
 ["x/rewards/keeper/allocation.go","x/rewards/keeper/target.go","x/rewards/types/models.go"],
 [("allocation","x/rewards/keeper/allocation.go AllocateRewards"),("eligibility","x/rewards/keeper/allocation.go getEligible*"),("commission","x/rewards/keeper/allocation.go allocateRewards")],
 [("last allocation time","start of the current period","x/rewards/keeper/keeper.go")],["outstanding/current rewards and commission deltas of every target in every block"])

prop("W03","Each delegator is paid its proportional share, exactly once",
 "What a delegator is paid for a target over any period equals the sum over allocations of the amount allocated to that target times its share of the (eligible) stake at that moment, up to rounding of a few base units, no matter when it or others claim, delegate more or undelegate, and changing a stake pays the pending rewards automatically. The pending-rewards query always equals what a withdrawal at that moment pays, and withdrawing again immediately pays nothing; payouts go to the chosen withdraw address.",
 ["histories"],"every interleaving of claims, stake changes, allocations and withdraw-address changes by several delegators",
 "Double or lost payment depends on the order of claims and period increments; an independent accumulator per delegator is needed over long histories.",
 ["x/rewards/keeper/delegation.go","x/rewards/keeper/hooks.go","x/rewards/keeper/target.go","x/rewards/keeper/withdraw.go"],
 [("period accounting","x/rewards/keeper/target.go"),("payout","x/rewards/keeper/delegation.go"),("hooks on stake change","x/rewards/keeper/hooks.go")],
 [("historical/current rewards, starting info","cumulative reward ratios and per-delegator start","x/rewards/keeper/keeper.go")],["bank payouts vs. a reference accumulator; query vs. withdrawal on a forked state"])

prop("W04","Pool stake earns a service's rewards only where its owner trusts it",
 "A user's pool delegation earns rewards of a service only from pools and services that the user's preferences trust (explicitly listed, or by the accredited / non-accredited flags), and the total trusting stake recorded per pool and service always equals the sum over users who currently trust that service, whatever sequence of preference edits, accreditation changes, service creations or deletions and (un)delegations occurred. Such changes never make a user unable to delegate, undelegate or edit preferences.",
 ["histories"],"every interleaving of preference edits, accreditation changes, service creation/deletion and pool delegations/undelegations",
 "The recorded totals are maintained incrementally from four modules' events; an error needs a specific order (e.g. service created or accredited after the delegation).",
 ["x/rewards/keeper/hooks.go","x/rewards/keeper/alias_functions.go","x/rewards/keeper/target.go","x/restaking/types/models.go","x/restaking/keeper/msg_server.go"],
 [("trust totals","x/rewards/keeper/alias_functions.go"),("preferences","x/restaking/types/models.go, x/restaking/keeper/msg_server.go"),("accreditation change","x/rewards/keeper/hooks.go")],
 [("per pool and service trusting shares","total shares of users trusting a service in a pool","x/rewards/keeper/keeper.go"),("user preferences","trusted services and flags","x/restaking/keeper/keeper.go")],["recorded totals vs. recomputation after every message"])

prop("W05","Reward plans live exactly for their period and only their owner shapes them",
 "A plan is created or edited only by its service's admin, against the configured fee, with a valid period, amount and weights; it gets a fresh increasing id and its own funds account. It is active from its start to its end and at the first block at or after its end it is removed, or when its service is deleted, its remaining funds going to the service, while rewards already allocated remain claimable.",
 ["histories","inputs"],"every sequence of plan creations, edits, fundings, service status changes and block times around start and end",
 "Boundary times, edits of running plans, several plans ending together and plans of inactive or deleted services are schedules, not single calls.",
 ["x/rewards/keeper/msg_server.go","x/rewards/keeper/rewards_plan.go","x/rewards/types/models.go"],
 [("creation/edit","x/rewards/keeper/msg_server.go"),("termination","x/rewards/keeper/rewards_plan.go")],
 [("plans","reward plans","x/rewards/keeper/keeper.go")],["plan queries and balances after each block"])

prop("L01","Locked tokens are minted and burned only by authorised parties and stay locked",
 "The supply of each locked denomination equals what authorised minters minted minus what was burned by authorised burners, minted and burned only for the addressed user and amounts. Locked tokens never reach another user's account: the only transfers that succeed, by any route (plain send, multi-send, authorised-on-behalf execution), have a restaking target or the locking module itself on one side; an undelegation returns them to the user that restaked them.",
 ["histories","inputs"],"every history of mint, burn, transfer (any route, mixed with other coins), restake and undelegate requests by any account",
 "A leak needs one route or coin combination among many; tests try one plain send.",
 ["x/liquidvesting/keeper/send_restriction.go","x/liquidvesting/keeper/mint.go","x/liquidvesting/keeper/msg_server.go","x/liquidvesting/keeper/burn.go"],
 [("send restriction","x/liquidvesting/keeper"),("mint and burn","x/liquidvesting/keeper/msg_server.go")],
 [("bank supply of locked denominations","minted minus burned","bank module")],["supply and balances of every account after each message"])

prop("L02","Locked stake never exceeds what its insurance fund covers",
 "A user can restake locked tokens only while its insurance fund covers the configured percentage, rounded up, of all its restaked and still unbonding locked tokens of that denomination including the new ones. Insurance can be withdrawn only down to that coverage, immediately and exactly, and a user's fund changes only through its own withdrawals and deposits made for it.",
 ["inputs","histories"],"every sequence of deposits, restakings in any target kind, undelegations, withdrawals and percentage changes, with multi-denomination amounts",
 "Boundary amounts with rounding, across three target kinds, several denominations and unbonding entries are a large input space; tests use round numbers and one target.",
 ["x/liquidvesting/keeper/insurance_fund.go","x/liquidvesting/keeper/restake_restriction.go","x/liquidvesting/types/models.go"],
 [("coverage check","x/liquidvesting/keeper"),("withdrawal","x/liquidvesting/keeper/insurance_fund.go, msg_server.go")],
 [("insurance fund","coins deposited for a user","x/liquidvesting/keeper/keeper.go")],["accept/reject against exact integer formula after every message"])

prop("L03","Requested burns of locked tokens complete exactly",
 "An accepted burn takes the user's free locked tokens first and unbonds the remainder from the user's restaked positions, never more than needed and never touching other coins; the unbonded part is burned when its unbonding completes, at the end of that very block, exactly once. A burn exceeding what the user holds free and restaked is rejected without effect, and one within it is accepted wherever it is restaked.",
 ["histories"],"every distribution of locked tokens over wallet, pools, operators and services (in several denominations) and every burn amount and completion schedule",
 "The decision depends on how tokens are spread over targets and denominations and on several burns maturing together; tests use one position.",
 ["x/liquidvesting/keeper/burn.go","x/liquidvesting/abci.go","x/restaking/keeper/unbond.go"],
 [("burn","x/liquidvesting/keeper/burn.go"),("completion","x/liquidvesting/abci.go"),("unbond restaked assets","x/restaking/keeper/unbond.go")],
 [("burn queue","amounts to burn at completion","x/liquidvesting/keeper/burn.go")],["wallet, positions and supply after each message and block"])

prop("L04","Insurance deposits over IBC are credited exactly and always backed",
 "An incoming transfer credits insurance funds only if it comes over an allowed channel, goes to the module, carries a valid deposit memo and its amounts add up to exactly the coins received; each named depositor is credited its exact amount in the denomination really received, otherwise the transfer is refused and nobody is credited. The module's holdings always cover the sum of all insurance funds, and ordinary transfers pass through unaffected.",
 ["inputs","histories"],"every incoming packet (amounts, memos, receivers, channels, source or returning denominations) interleaved with withdrawals",
 "The input is an arbitrary packet from a counterparty chain; tests send a few well-formed memos through mocked denominations.",
 ["x/liquidvesting/ibc_module.go","x/liquidvesting/keeper/ibc.go","utils/ibc.go"],
 [("packet middleware","x/liquidvesting/ibc_module.go"),("deposit handling","x/liquidvesting/keeper/ibc.go")],
 [("insurance funds and module balance","sum of funds backed by module holdings","x/liquidvesting/keeper")],["acknowledgements, funds and balances for every packet through the real IBC stack"])

prop("A01","The asset registry is consistent and values coins correctly",
 "Assets are registered and removed only by governance; looking assets up by denomination or listing them by ticker always gives the same set of records, with the latest registration of a denomination replacing earlier ones completely, also after re-registering under another ticker. The value of an amount is exactly price times amount scaled by the asset's exponent, zero when the asset or its price is unknown, for every exponent and amount that can be registered.",
 ["inputs","histories"],"every sequence of registrations, re-registrations and removals, and every exponent, amount and price",
 "The two indexes diverge only for re-registration histories, and valuation errs only at extreme exponents/amounts that examples avoid.",
 ["x/assets/keeper/msg_server.go","x/assets/keeper/assets.go","x/rewards/keeper/alias_functions.go","x/rewards/keeper/oracle.go"],
 [("registry","x/assets/keeper"),("valuation","x/rewards/keeper GetCoinValue")],
 [("assets and ticker index","denomination metadata","x/assets/keeper/keeper.go")],["asset queries; valuation vs. exact big-number arithmetic"])

prop("G01","Governance entry rules hold for every way of submitting and voting",
 "A transaction that votes on a proposal, in any vote form and however nested in delegated execution, is admitted only if the voter has at least the minimum amount delegated to validators (counted over at most 100 delegations); a transaction submitting an expedited proposal, however nested, is admitted only if all the proposal's messages are on the expedited list. All other transactions are unaffected by these rules.",
 ["inputs"],"every transaction built from vote, weighted vote, proposal submission and delegated-execution messages nested to any depth, mixed with other messages, by voters with any stake",
 "The rule is about every wrapping of a message; the tests build one or two wrappings.",
 ["ante/gov_vote_ante.go","ante/gov_expedited_ante.go","ante/ante.go"],
 [("vote decorator","ante/gov_vote_ante.go"),("expedited decorator","ante/gov_expedited_ante.go")],
 [],["admission decision of the application's ante handler on generated transactions"])

prop("D01","Replaying the same blocks always yields the same state, also after restarts",
 "Executing the same sequence of blocks on independent nodes, in any process, and with a node stopped and reopened from its database after any block, gives identical state hashes, transaction results and events at every height. Simulating or checking transactions and answering queries never changes the outcome.",
 ["schedules","crash_points","histories"],"every block sequence and every restart point, with queries and checks interleaved arbitrarily",
 "Non-determinism (map order, wall clock, shared memory state) is invisible in a single run; it needs repeated executions of the same history compared hash by hash.",
 ["app/app.go","x/rewards/keeper/allocation.go","x/restaking/keeper","x/operators/abci.go","x/liquidvesting/abci.go"],
 [("block execution","app/app.go"),("iteration over collections","x/*/keeper")],
 [],["application hash, results and events per height on two nodes"])

prop("D02","Concurrent queries and transaction checks are safe while blocks execute",
 "Any number of queries, simulations and mempool checks may run concurrently with block execution without data races, crashes, or influence on the block results, and each query sees one consistent committed state.",
 ["schedules"],"every interleaving of query/check threads with block execution and commit",
 "Data races depend on thread timing; unit tests are sequential.",
 ["app/app.go","x/rewards/keeper/grpc_query.go","x/restaking/keeper/grpc_query.go","x/services/keeper","x/operators/keeper","x/pools/keeper"],
 [("query servers","x/*/keeper/grpc_query.go"),("application wiring","app/app.go, app/keepers/keepers.go")],
 [],["race detector reports; consistency of query answers; application hash vs. sequential run"])

prop("U01","Share and token arithmetic is exact, monotone and never favours the user",
 "For any stake history and valid exchange rate (one token worth at least one smallest share), converting tokens to shares and back never yields more than was put in, delegating then undelegating everything returns at most the delegated amount and loses at most rounding of one base unit per denomination, other delegators' stake value is never reduced, and coin and value pools used for rewards add, subtract, scale and intersect exactly per denomination.",
 ["inputs"],"every exchange rate, amount and set of denominations reachable through the share arithmetic, including extreme values",
 "It is an algebraic law over arbitrary-precision inputs; tests check round numbers at a one-to-one rate.",
 ["x/restaking/types/models.go","x/pools/types/models.go","x/operators/types/models.go","x/services/types/models.go","x/rewards/types/dec_pool.go","x/rewards/types/pool.go","utils"],
 [("shares and tokens","x/pools/types/models.go, x/operators/types/models.go, x/services/types/models.go"),("reward pools","x/rewards/types/dec_pool.go, pool.go")],
 [],["results of the exported arithmetic vs. exact rational arithmetic"])

prop("T01","Transactions count only if properly signed, once, timely, and fully paid",
 "A transaction is executed only if every signer signed exactly its content for this chain with the account's own key, number and current sequence, its timeout height has not passed, its memo and number of signatures are within the limits and it offers the fee the chain asks for: one coin of the fee denomination of at least the minimum gas price times its gas limit, rounded up, whether the dynamic fee market is switched on or off (with a price of zero and the fee market off, any fee). An admitted transaction takes the whole offered fee from the payer, or from the granter within a valid fee grant, and raises each signer's sequence by one, also when its messages fail, in which case nothing else changes; it can never be executed again. With fee distribution on, the fee market keeps nothing of a successful transaction's fee. A refused transaction changes nothing, and a transaction that satisfies all rules is admitted.",
 ["inputs","histories"],"every transaction, and every sequence of blocks with valid, replayed, altered, wrongly signed, underpaid and expired transactions of any mix of signers, payers and fee grants, under every fee market setting",
 "The existing tests run message handlers with signatures and fees switched off or with one hand-made transaction; the wiring of the checks that every transaction passes, and their order, only shows with signed transactions in real blocks, including malicious ones.",
 ["ante/ante.go","app/app.go","app/post.go","app/keepers/keepers.go"],
 [("order and set of admission checks","ante/ante.go NewAnteHandler"),("minimum fee with the fee market off","app/app.go minTxFeesChecker"),("fee denominations","app/keepers/keepers.go DefaultFeemarketDenomResolver"),("payment after execution","app/post.go NewPostHandler")],
 [("sequences, balances, fee grants","what admission reads and changes","auth, bank and feegrant modules")],
 ["mempool answer and committed block result of every transaction, committed state after every block"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
