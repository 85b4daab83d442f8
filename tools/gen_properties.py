#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
H=["histories","inputs"]; C=["configurations","inputs"]

p("C01","Lending pool reserves stay solvent",
  "For every reserve of a pool, at every point of every history, the tokens the pool holds plus the debt owed to it cover everything suppliers can claim plus the interest set aside for the backstop. The only exception is debt that the pool explicitly writes off because the backstop is exhausted, and then only by the amount written off.",
  H,"every sequence of supplies, withdrawals, borrows, repayments, time jumps, liquidations, bad-debt and interest auctions, for every decimals / rate / take-rate configuration",
  "Rounding drift only shows after particular amounts at particular exchange rates; the tests use a few round numbers at a handful of rates.",
  ["pool/src/pool/reserve.rs","pool/src/pool/actions.rs","pool/src/pool/submit.rs","pool/src/auctions/backstop_interest_auction.rs"],
  [("share conversions rounded in the pool's favour","pool/src/pool/reserve.rs"),("interest split between suppliers and backstop","pool/src/pool/reserve.rs:Reserve::load"),("transfers follow the computed actions","pool/src/pool/submit.rs")],
  [("ReserveData","rates, share supplies, backstop credit","pool/src/storage.rs")],["token balance of the pool","reserve data"])

p("C02","Share totals equal the sum of account positions",
  "For every reserve, total supply shares equal the sum of all accounts' supply and collateral shares, and total debt shares equal the sum of all accounts' debt shares (the backstop's bad debt included). No account ever holds a zero or negative position entry.",
  H,"every history of user actions, liquidations, bad-debt transfers, auction fills and write-offs",
  "It is a conservation law over whole histories with several accounts; tests look at one or two accounts after a fixed script.",
  ["pool/src/pool/user.rs","pool/src/pool/bad_debt.rs","pool/src/auctions/"],
  [("position add / remove keep the reserve totals in step","pool/src/pool/user.rs"),("reserve cache written back once per call","pool/src/pool/pool.rs")],
  [("Positions","shares per reserve per account","pool/src/storage.rs")],["get_positions","reserve data"])

p("C03","Interest accrues exactly by the published rate model",
  "Whenever a reserve is used, its debt and supply exchange rates advance exactly once for the time elapsed, by the three-segment utilization curve scaled by the reactive rate modifier, which itself moves with the utilization error times the elapsed time and stays within [0.1, 10]. The configured take rate of the accrued interest goes to the backstop and the rest to suppliers; exchange rates never decrease, and nothing accrues twice within one ledger or while nothing is borrowed.",
  ["histories","inputs","configurations"],"every rate curve configuration accepted by the pool, utilization (below target, up to 95%, above, over 100%), elapsed time, take rate and modifier value",
  "The curve has three segments, two directions of modifier movement, clamps and ceil/floor roundings; unit tests sample about ten points.",
  ["pool/src/pool/interest.rs","pool/src/pool/reserve.rs"],
  [("calc_accrual","pool/src/pool/interest.rs"),("Reserve::load accrual and split","pool/src/pool/reserve.rs")],
  [("ReserveData.ir_mod / d_rate / b_rate / backstop_credit / last_time","accrual state","pool/src/storage.rs")],["reserve data after any action"])

p("C04","No account gains value from its own requests at a fixed price",
  "Within one ledger, an account's own supply, withdraw, borrow and repay requests never increase its net worth (wallet plus supply claims minus debt), whatever the amounts and exchange rates, and lose it at most rounding dust. Asking to withdraw more than the position pays out exactly the position, and asking to repay more than the debt clears the debt and returns the excess; a request too small to move any shares is refused.",
  H,"all amounts (dust to large), exchange rates after arbitrary accrual, request orders and batches",
  "A one-unit rounding error in the user's favour is invisible to tests that use round amounts at rate 1.0.",
  ["pool/src/pool/actions.rs","pool/src/pool/reserve.rs","pool/src/pool/user.rs"],
  [("to_b_token_down/up, to_d_token_up/down","pool/src/pool/reserve.rs"),("over-withdraw cap and over-repay refund","pool/src/pool/actions.rs")],
  [],["wallet balances","get_positions"])

p("C05","Submit moves the right tokens between the right parties",
  "A successful submit takes exactly the supplied and repaid amounts from the spender, pays exactly the withdrawn, borrowed and refunded amounts to the recipient, and changes only the positions of the account it is for (besides the parties of an auction it fills). A batch has the same total effect as its requests submitted one by one in the same ledger, and a refused submit changes nothing.",
  H,"every batch of requests, with every assignment of owner, spender and recipient (distinct or equal), repeated assets and mixed directions",
  "Tests nearly always use one address for all three roles and one or two requests per asset.",
  ["pool/src/pool/submit.rs","pool/src/pool/actions.rs","pool/src/pool/pool.rs"],
  [("action maps accumulate per asset","pool/src/pool/actions.rs"),("transfers around storing the state","pool/src/pool/submit.rs"),("reserve cache","pool/src/pool/pool.rs")],
  [],["wallet balances of owner, spender, recipient, pool","get_positions of every account"])

p("C06","Risk-increasing requests leave the account healthy",
  "After a submit that borrows, withdraws collateral, takes over an auctioned position or cancels a liquidation, an account with debt has collateral (valued at oracle prices and discounted by collateral factors) of at least 1.00001 times its debt (grossed up by liability factors); otherwise the submit is refused. Non-collateral supply never counts, and only the positions after the whole batch matter.",
  ["histories","inputs","configurations"],"every combination of positions in several reserves, factors, prices, oracle and token decimals, interest accrual and request batch, in particular within rounding distance of the limit",
  "The boundary has a tolerance of 1e-5 and depends on up to a dozen multiplied factors; tests try a few healthy and a few clearly unhealthy accounts.",
  ["pool/src/pool/health_factor.rs","pool/src/pool/submit.rs","pool/src/pool/actions.rs"],
  [("health check after the batch","pool/src/pool/submit.rs"),("PositionData::calculate_from_positions","pool/src/pool/health_factor.rs"),("check_health flags","pool/src/pool/actions.rs")],
  [],["result of submit","positions, prices and reserve data afterwards"])

p("C07","Borrowing respects the utilization cap and the position limit",
  "No borrow request succeeds that leaves its reserve's utilization above the reserve's configured maximum, judged right after that request. No submit succeeds that increases an account's number of collateral and debt positions beyond the pool's maximum, while reducing or keeping the count is always allowed even when already above it.",
  ["histories","inputs","configurations"],"all caps and limits (also lowered after positions exist), utilizations near the cap, and batches that open and close positions",
  "Tests check one cap value with one batch; the ceil rounding at the cap and counts crossing the limit inside a batch are not sampled.",
  ["pool/src/pool/reserve.rs","pool/src/pool/pool.rs","pool/src/pool/actions.rs"],
  [("require_utilization_below_max","pool/src/pool/reserve.rs"),("require_under_max","pool/src/pool/pool.rs")],
  [],["result of submit","reserve data","get_positions"])

p("C08","Pool status restricts exactly the risky requests",
  "While a pool is on ice or worse no one can borrow or cancel a liquidation, and while it is frozen or in setup no one can supply either; withdrawing, repaying and filling auctions are never blocked by status. Requests of unknown type or with a negative amount are refused, wherever they stand in a batch.",
  ["histories","inputs","configurations"],"every pool status, request type (0 to 2^32-1), amount sign and position in a batch",
  "Tests probe a few (status, request) pairs; the guarantee is over the full table and inside batches.",
  ["pool/src/pool/pool.rs","pool/src/pool/actions.rs","pool/src/validator.rs"],
  [("require_action_allowed","pool/src/pool/pool.rs"),("require_nonnegative","pool/src/validator.rs"),("RequestType::from_u32","pool/src/pool/actions.rs")],
  [("PoolConfig.status","pool status","pool/src/storage.rs")],["result of submit"])

p("C09","Pool status follows the backstop's health",
  "Anyone can update the status, and the result depends only on the current status, the share of backstop deposits queued for withdrawal and whether the backstop's BLND^4*USDC product reaches the 200k^5 threshold: admin-active goes on ice below threshold or at 50% queued, admin-on-ice freezes at 75%, other states become frozen at 60%, on ice at 30% or below threshold, active otherwise, and admin-frozen and setup never change. The admin can set active only at threshold with under 50% queued, either on-ice state only with under 75% queued, frozen always, and nothing else.",
  ["histories","inputs","configurations"],"every (status, queued percentage, backstop BLND/USDC value) combination including both sides of every boundary",
  "A 7-state table with four percentage boundaries and a fifth-power threshold: tests sample some cells away from the exact boundaries.",
  ["pool/src/pool/status.rs","backstop/src/backstop/pool.rs"],
  [("execute_update_pool_status / execute_set_pool_status / calc_pool_backstop_threshold","pool/src/pool/status.rs"),("load_pool_backstop_data","backstop/src/backstop/pool.rs")],
  [],["update_status / set_status results","pool config"])

p("C10","Reserve settings change only through a validated, timelocked queue",
  "A reserve is added or changed only with parameters the admin queued, that pass validation, no earlier than one week after queueing (immediately while the pool is in setup), and at most once per queueing; only one change per asset can be pending and the admin can cancel it. Applying a change first accrues interest under the old settings, keeps the reserve's index, token decimals, balances and rates, and resets the rate modifier only when the rate curve changes; a pool never has more than 32 reserves.",
  ["histories","inputs","configurations"],"every parameter combination around each validation bound, every interleaving of queue / cancel / apply with time jumps, status changes and user activity",
  "Tests try one invalid value per field and one timeline; the timelock and accrual order matter for every interleaving.",
  ["pool/src/pool/config.rs","pool/src/storage.rs"],
  [("execute_queue_set_reserve / execute_set_reserve / initialize_reserve / require_valid_reserve_metadata","pool/src/pool/config.rs"),("push_res_list","pool/src/storage.rs")],
  [("QueuedReserveInit","pending change with unlock time","pool/src/storage.rs")],["reserve config and data","results of queue/cancel/set"])

p("C11","Liquidation auctions hit only unhealthy accounts and are fairly sized",
  "A liquidation auction can be created only for an account whose weighted debt is at least its weighted collateral, for 1 to 100 percent, never for the pool or the backstop and never while that account already has one. It asks the filler to take that percentage of every debt and offers collateral worth that debt plus the incentive implied by the account's factors, never more than the account has, and a partial liquidation is accepted only if the account would end with a health factor between 1.03 and 1.15, a full one only if its collateral does not suffice.",
  ["histories","inputs","configurations"],"every portfolio over several reserves with different factors, decimals, prices and accrued interest, and every requested percentage",
  "Sizing is a chain of a dozen rounded multiplications over the whole portfolio; tests fix a few portfolios.",
  ["pool/src/auctions/user_liquidation_auction.rs","pool/src/auctions/auction.rs","pool/src/pool/health_factor.rs"],
  [("create_user_liq_auction_data","pool/src/auctions/user_liquidation_auction.rs"),("create_liquidation","pool/src/auctions/auction.rs")],
  [("AuctionData","bid, lot, start block","pool/src/auctions/auction.rs")],["new_liquidation_auction","get_auction"])

p("C12","Auction fills follow the price schedule and conserve positions",
  "Filling p percent (1 to 100) of an auction k blocks after its start hands over p percent of the lot times min(k,200)*0.5%, against p percent of the bid times 100% until block 200 and then 0.5% less per block down to zero at block 400; what is not filled stays in the auction, unpriced, until nothing is left. Exactly what leaves the liquidated account (collateral and debt shares) arrives at the filler, an account can never fill its own auction, and any other percentage is refused.",
  ["histories","inputs"],"every fill block, percentage, sequence of partial fills, fillers with existing positions, and batches mixing fills with other requests",
  "Tests fix a few blocks and percentages; rounding of several partial fills and percentages outside 1..100 are not sampled.",
  ["pool/src/auctions/auction.rs","pool/src/auctions/user_liquidation_auction.rs","pool/src/pool/actions.rs"],
  [("scale_auction / fill","pool/src/auctions/auction.rs"),("fill_user_liq_auction","pool/src/auctions/user_liquidation_auction.rs")],
  [("AuctionData","remaining bid and lot","pool/src/auctions/auction.rs")],["get_auction","get_positions of both parties"])

p("C13","Bad debt goes to the backstop and is auctioned against its deposits",
  "Debt moves to the backstop only from accounts (never the backstop itself) that have debt and no collateral, and then all of it does, leaving other shares alone. A bad-debt auction covers exactly the backstop's debt and offers backstop tokens worth 1.4 times it, capped at that pool's deposits; a fill moves debt shares to the filler and pays it the priced tokens out of that pool's deposits only; remaining backstop debt is written off only when the pool's backstop is below about 5% of the threshold.",
  H,"every bad-debt portfolio, backstop size, LP price, fill block and percentage, with repeated transfers and partial fills",
  "Needs a long set-up (default, liquidation, transfer, auction, partial fills); tests run two or three such scripts.",
  ["pool/src/pool/bad_debt.rs","pool/src/auctions/bad_debt_auction.rs","backstop/src/backstop/fund_management.rs"],
  [("transfer_bad_debt_to_backstop","pool/src/pool/bad_debt.rs"),("create_bad_debt_auction_data / fill_bad_debt_auction","pool/src/auctions/bad_debt_auction.rs"),("execute_draw","backstop/src/backstop/fund_management.rs")],
  [],["get_positions of user, filler, backstop","get_auction","pool_data","LP balances"])

p("C14","Interest auctions sell exactly the interest owed to the backstop",
  "An interest auction offers exactly the interest set aside for the backstop in the named reserves, is created only when that is worth more than 200 base units and none is pending, and asks for backstop tokens worth 1.4 times it, however the reserves are listed. A fill can happen at any block after the start: it pays the priced lot to the filler and reduces the interest owed by the same amount, and donates the priced bid from the filler to that pool's backstop deposits. All fills together never pay out more than was set aside.",
  H,"every reserve list (subsets, repeats), amount of accrued interest, LP price, fill block (0 to beyond 400) and percentage",
  "Tests list each reserve once and fill near block 200-300 only.",
  ["pool/src/auctions/backstop_interest_auction.rs","pool/src/auctions/auction.rs","backstop/src/backstop/fund_management.rs"],
  [("create_interest_auction_data / fill_interest_auction","pool/src/auctions/backstop_interest_auction.rs"),("execute_donate","backstop/src/backstop/fund_management.rs")],
  [],["new_interest_auction","get_auction","reserve data","token and LP balances","pool_data"])

p("C15","Pool emissions reach holders pro rata and never exceed their funding",
  "Each funded reserve side streams its configured share of every emission batch (shares sum to at most 100%) evenly over seven days, carrying over what an earlier batch had left, and every holder earns in proportion to its shares for exactly the time it holds them, whatever the order of actions by anyone. A claim pays exactly what was earned and not yet paid, once, out of BLND the backstop granted the pool, and total payouts never exceed the emissions received. What streams while nobody holds a side goes to its next holders; a grant lapses 120 days after the pool's last collection.",
  H,"every interleaving of position changes, claims, new emission batches, share re-configurations, expiries and time jumps, including liquidations moving shares",
  "Index accounting errors need particular interleavings of several holders around re-configuration and expiry; tests script a few.",
  ["pool/src/emissions/distributor.rs","pool/src/emissions/manager.rs","pool/src/pool/user.rs"],
  [("update_emissions / execute_claim","pool/src/emissions/distributor.rs"),("gulp_emissions / set_pool_emissions","pool/src/emissions/manager.rs"),("update before every share change","pool/src/pool/user.rs")],
  [("ReserveEmissionsData / UserEmissionData","index accounting","pool/src/storage.rs")],["claim results","BLND balances and allowance","emission data"])

p("C16","Backstop balances always reconcile",
  "The deposits recorded for all pools never exceed the LP tokens the backstop holds and account for every one ever deposited, donated or earned and not yet paid out. For each pool, total shares equal the sum of all users' shares, queued ones included, and the queued total equals the sum of all users' queue entries.",
  H,"every history of deposits, queueing, dequeuing, withdrawals, draws, donations and claims over several pools and users",
  "A conservation law over histories with several users and pools; tests check single operations.",
  ["backstop/src/backstop/","backstop/src/emissions/claim.rs"],
  [("PoolBalance and UserBalance updates","backstop/src/backstop/pool.rs, user.rs"),("execute_*","backstop/src/backstop/")],
  [("PoolBalance / UserBalance","shares, tokens, queue","backstop/src/storage.rs")],["user_balance","pool_data","LP balances"])

p("C17","Backstop shares are fairly priced",
  "A deposit mints amount times shares over tokens (one to one when there are none) rounded down and is refused if that is zero; a withdrawal pays shares times tokens over shares rounded down and is refused if that is zero. No deposit, queueing, dequeuing, withdrawal or donation ever lowers the token value of anyone else's share, so no sequence of deposits and withdrawals alone returns more than was put in (what was donated while nobody held shares goes to the next depositor); only a draw lowers it, for all shares of that pool alike.",
  H,"every sequence of deposits, withdrawals, donations and draws of any size, in particular dust amounts and first-depositor situations",
  "Inflation and rounding attacks need chosen amounts in chosen order; the tests hold one such script.",
  ["backstop/src/backstop/pool.rs","backstop/src/backstop/deposit.rs","backstop/src/backstop/withdrawal.rs"],
  [("convert_to_shares / convert_to_tokens","backstop/src/backstop/pool.rs"),("zero-mint and zero-payout guards","backstop/src/backstop/deposit.rs, withdrawal.rs")],
  [],["deposit / withdraw results","LP balances","pool_data"])

p("C18","Backstop withdrawals wait out a 21 day queue",
  "Shares can leave the backstop only after being queued for 21 days: withdrawals consume a user's queue entries oldest first and only expired ones, dequeuing consumes them oldest first whatever their age and gives back exactly those shares. A user never has more than 21 pending entries per pool, can never queue more shares than it holds unqueued nor withdraw or dequeue more than queued, and queued shares are never usable twice.",
  H,"every interleaving of queue / dequeue / withdraw with time jumps around the expiry second, partial amounts, several entries, users and pools",
  "The queue is a per-user list with partial consumption; tests cover a few hand-made lists.",
  ["backstop/src/backstop/user.rs","backstop/src/backstop/withdrawal.rs","backstop/src/constants.rs"],
  [("queue_shares_for_withdrawal / dequeue_shares_for_withdrawal","backstop/src/backstop/user.rs"),("execute_queue/dequeue/withdraw","backstop/src/backstop/withdrawal.rs")],
  [("Q4W","amount and expiration","backstop/src/backstop/user.rs")],["user_balance","queue/dequeue/withdraw results"])

p("C19","Backstop emissions are split and earned as specified",
  "Each newly distributed BLND is assigned 70% to backstop depositors and 30% to pools, across reward-zone pools in proportion to their not-queued deposits, at most once; depositors' part streams over seven days (carrying over what was left) to unqueued shares in proportion and for exactly the time they are unqueued. A claim is exactly what was earned and unpaid, a pool can collect exactly its assigned part once, and all assignments together never exceed the BLND the backstop received. What streams while a pool has no unqueued share goes to its next unqueued ones.",
  H,"every interleaving of distribution, gulping, deposits, queueing, dequeuing, claims, reward-zone changes and time jumps over several pools and users",
  "Index accounting across users, pools and queue changes; tests script a few sequences with two users.",
  ["backstop/src/emissions/manager.rs","backstop/src/emissions/distributor.rs","backstop/src/backstop/withdrawal.rs","backstop/src/backstop/deposit.rs"],
  [("gulp_emissions / set_backstop_emission_config / gulp_pool_emissions","backstop/src/emissions/manager.rs"),("update_emissions / claim_emissions","backstop/src/emissions/distributor.rs")],
  [("BackstopEmissionsData / UserEmissionData / PoolEmis","index accounting","backstop/src/storage.rs")],["claim and gulp results","BLND balances and allowances"])

p("C20","Claimed backstop emissions become deposits of the recipient",
  "Claiming joins the claimed BLND into the LP and deposits the LP tokens received into the named pools in proportion to what each pool's emissions contributed, minting shares at the current price to the recipient and to no one else. Nothing of it is lost beyond rounding, also when a pool is named twice or the recipient is another account, and the recipient's own emissions are neither lost nor increased for the time before.",
  H,"every list of pools (with repeats), claimer and recipient with any existing balances and emission history",
  "Tests claim to oneself from distinct pools.",
  ["backstop/src/emissions/claim.rs"],
  [("execute_claim","backstop/src/emissions/claim.rs")],
  [],["claim result","LP and BLND balances","user_balance of claimer and recipient","later claims"])

p("C21","Only sufficiently backed pools enter the reward zone",
  "The reward zone holds at most 10 pools plus one for every 2^23 seconds since the backstop epoch, each at most once. A pool enters only if its backstop deposits meet the 200k^5 product threshold; when the zone is full it must replace a named member that has strictly fewer deposits, and only if emissions were assigned within the last day.",
  ["histories","inputs","configurations"],"every zone size and time relative to the epoch, deposits around the threshold and around the replaced pool's deposits, repeated and absent pools",
  "Tests use one full zone at one time and round balances far from the boundaries.",
  ["backstop/src/emissions/manager.rs","backstop/src/backstop/pool.rs"],
  [("add_to_reward_zone","backstop/src/emissions/manager.rs"),("require_pool_above_threshold","backstop/src/backstop/pool.rs")],
  [("RZ","list of pools","backstop/src/storage.rs")],["add_reward result","reward zone list"])

p("C22","The emitter mints one BLND per second to one backstop",
  "Over any history the emitter mints exactly one BLND per second to whichever backstop is active, with no gap, overlap or repeat at distributions and backstop swaps. A swap is possible only to a backstop holding strictly more backstop tokens than the current one, both when queued and when executed, at least 31 days apart, one at a time, and anyone can cancel it only while the candidate does not hold more.",
  H,"every sequence of distribute, queue, cancel and swap with arbitrary time jumps and backstop-token movements",
  "Total minted is a function of the whole history; tests take three or four steps.",
  ["emitter/src/emitter.rs","emitter/src/backstop_manager.rs","emitter/src/storage.rs"],
  [("execute_distribute","emitter/src/emitter.rs"),("execute_queue/cancel/swap_backstop","emitter/src/backstop_manager.rs")],
  [("LastDistro / Swap / Backstop","distribution clock, queued swap","emitter/src/storage.rs")],["BLND balances","get_last_distro","get_backstop","get_queued_swap"])

p("C23","Each backstop can drop at most 50 million BLND, once",
  "A drop mints exactly the listed amounts to exactly the listed addresses, only at the demand of the active backstop, at most once per backstop ever, and never more than 50 million BLND in total. A refused drop mints nothing.",
  ["histories","inputs"],"every drop list (empty, repeated addresses, negative or huge amounts, totals around the cap), and every interleaving of drops with backstop swaps",
  "Tests try one valid and one oversized list.",
  ["emitter/src/emitter.rs","backstop/src/contract.rs"],
  [("execute_drop","emitter/src/emitter.rs"),("drop","backstop/src/contract.rs")],
  [("Dropped","per-backstop flag","emitter/src/storage.rs")],["drop result","BLND balances"])

p("C24","The pool factory vouches exactly for pools it deployed",
  "The factory reports an address as a pool if and only if it deployed it, and every pool it deploys is initialized with the caller's admin, name, oracle, take rate and position limit, the factory's backstop and BLND, and starts in setup. Take rates of 100% or more and position limits under 2 are refused, and the address depends on admin and salt so that no one can occupy another admin's address.",
  ["histories","inputs"],"every sequence of deployments with equal and different admins, salts and parameters around the bounds, and arbitrary probed addresses",
  "Tests deploy one or two pools.",
  ["pool-factory/src/pool_factory.rs","pool-factory/src/storage.rs","pool/src/pool/config.rs"],
  [("deploy / is_pool","pool-factory/src/pool_factory.rs"),("execute_initialize","pool/src/pool/config.rs")],
  [("Contracts","deployed pools","pool-factory/src/storage.rs")],["deploy result","is_pool","deployed pool's config"])

p("C25","State changes only with the right party's authorization",
  "No call changes an account's positions, deposits or wallet for the worse, or spends its tokens, without that account's authorization; pool settings change only with the admin's, admin hand-over needs both admins', and backstop funds of a pool move out only with that pool's. Pool-only and backstop-only entry points are refused to everyone else, and permissionless calls work without any authorization.",
  H,"every entry point, caller and set of authorizations, with distinct owner, spender, recipient and admin",
  "Tests mock all authorizations and inspect a few of them.",
  ["pool/src/contract.rs","backstop/src/contract.rs","emitter/src/emitter.rs","pool-factory/src/pool_factory.rs"],
  [("require_auth calls","pool/src/contract.rs, backstop/src/contract.rs"),("backstop.require_auth in drop","emitter/src/emitter.rs")],
  [],["authorizations demanded by each call","result with authorizations withheld"])

p("C26","Contracts are initialized exactly once with valid settings",
  "Pool, backstop, emitter and factory accept initialization once and refuse it ever after, whoever calls and whatever happened in between, leaving all settings as they were. A pool never has a backstop take rate of 100% or more, initially or after an update, nor starts with a position limit under 2.",
  ["histories","inputs"],"every second initialization, by anyone, with the same or other arguments at any later time, and every initial and updated parameter value",
  "Tests call initialize twice in a row with the same arguments.",
  ["pool/src/pool/config.rs","backstop/src/contract.rs","emitter/src/contract.rs","pool-factory/src/pool_factory.rs"],
  [("is_init flags","*/src/storage.rs"),("execute_initialize / execute_update_pool","pool/src/pool/config.rs")],
  [("IsInit","initialization flag","*/src/storage.rs")],["initialize results","settings before and after"])

p("C27","Scheduled state survives until its schedule is over",
  "An auction stays available for at least 45 days unless it is filled or cancelled, a queued reserve change stays applicable for at least 100 days unless applied or cancelled, and the drop list for at least 100 days, on a network with the minimum lifetime of temporary entries. A partly filled auction gets no shorter life.",
  ["histories","configurations"],"every creation time, network TTL setting, partial fill schedule and waiting time up to the stated lifetime",
  "Test ledgers are configured with temporary lifetimes of 500000 ledgers, so an entry that is never extended survives anyway.",
  ["pool/src/storage.rs","backstop/src/storage.rs"],
  [("extend_ttl on set_auction / set_queued_reserve_set / set_drop_list","pool/src/storage.rs, backstop/src/storage.rs")],
  [("temporary entries","auctions, queued reserves, drop list","pool/src/storage.rs")],["get_auction, set_reserve, drop after the wait"])

p("C28","Backstop funds serve only the pool they were deposited for",
  "A draw takes tokens only from the drawing pool's own deposits and at most all of them, a donation adds exactly the donated tokens to the named pool only, and both leave shares and queues alone. No action concerning one pool changes any other pool's deposits, shares, queues or assigned emissions, and deposits and donations are accepted only for pools of the factory and never from the pool or the backstop itself.",
  H,"every history of draws, donations, deposits and withdrawals interleaved over several pools, with amounts around the available deposits",
  "Tests use one pool at a time.",
  ["backstop/src/backstop/fund_management.rs","backstop/src/backstop/pool.rs","backstop/src/backstop/deposit.rs"],
  [("execute_draw / execute_donate","backstop/src/backstop/fund_management.rs"),("require_is_from_pool_factory","backstop/src/backstop/pool.rs")],
  [],["pool_data of every pool","LP balances"])

p("C29","Stale or missing prices never decide anything",
  "A price last updated more than 24 hours ago is never used: any borrow, collateral withdrawal by a borrower, auction take-over, liquidation, bad-debt or interest auction that depends on it is refused. Prices of up to 24 hours of age are used as they are, and only those of reserves actually involved are needed.",
  ["histories","inputs","configurations"],"every price age around the 24 hour limit per asset, for every operation that values positions, with any mix of involved reserves",
  "Tests age the price of one asset once, for one operation.",
  ["pool/src/pool/pool.rs","pool/src/pool/health_factor.rs","pool/src/auctions/"],
  [("Pool::load_price","pool/src/pool/pool.rs")],
  [],["result of submit and of auction creation"])

p("C30","Exits never depend on prices, status or emissions",
  "Repaying, withdrawing non-collateral supply, and withdrawing collateral without debt succeed in every pool status and without any usable price, as long as the pool holds the tokens. Backstop depositors can always deposit to a funded pool, queue, dequeue, withdraw expired entries and claim, whatever portion of the shares is queued and whatever the state of emissions.",
  H,"every reachable state: every status, stale or absent prices, fully queued backstops, expired or running emissions, long idle periods",
  "Tests check exits only from active pools with fresh prices and never with all backstop shares queued.",
  ["pool/src/pool/actions.rs","pool/src/pool/submit.rs","backstop/src/backstop/withdrawal.rs","backstop/src/emissions/distributor.rs"],
  [("check_health only when required","pool/src/pool/submit.rs"),("update_emission_data_with_config","backstop/src/emissions/distributor.rs")],
  [],["results of submit, queue, dequeue, withdraw, claim"])

p("C31","Getters and return values tell the true state",
  "get_positions, get_auction, user_balance, pool_data, backstop_token, get_backstop, get_last_distro and get_queued_swap answer exactly with the current state (pool_data with the deposits, the queued share rounded up and the BLND and USDC behind them), and every call that returns something returns what it did: the account's resulting positions, the auction as created, the new status, the shares minted, the tokens paid out, claimed, gulped or distributed, the queue entry made. A call that is refused or only reads changes nothing.",
  H,"every reachable state of pool, backstop and emitter and every account, auction type and pool address asked about, known to the contract or not",
  "A wrong answer only shows in particular states (a partly filled auction, a queue after a partial withdrawal, a pending swap); the tests read the getters after a few scripts and rarely compare a return value with what the call moved.",
  ["pool/src/contract.rs","backstop/src/contract.rs","backstop/src/backstop/pool.rs","emitter/src/contract.rs"],
  [("getters and returned results","pool/src/contract.rs"),("getters and returned results","backstop/src/contract.rs"),("load_pool_backstop_data","backstop/src/backstop/pool.rs"),("getters and returned results","emitter/src/contract.rs")],
  [],["all getters","all return values"])

p("C32","Events tell exactly what happened",
  "Whoever only watches the events of pools, backstop and emitter can keep the exact books: supplied, withdrawn, borrowed and repaid shares and fill percentages add up to every account's positions and to the tokens the pool moved; auction events tell the pending auctions; settings events the status, take rate, position limit, admin, reserve list, queued changes and emission streams; deposit, queue, dequeue, withdraw, draw and donate events every pool's deposits, shares and queues; claim, gulp, distribution and drop events the BLND moved; swap events the queued swap and the active backstop. A refused call leaves no event.",
  H,"every history of calls, with all request kinds, partial fills, bad debt moved and written off, repeated pools in claims and swaps of the backstop",
  "Tests assert few events and never that they add up; an event with a requested instead of an actual amount, or missing on one branch, is only visible over a history that takes the branch.",
  ["pool/src/pool/actions.rs","pool/src/pool/bad_debt.rs","pool/src/auctions/bad_debt_auction.rs","pool/src/contract.rs","pool/src/emissions/manager.rs","backstop/src/contract.rs","backstop/src/emissions/claim.rs","emitter/src/contract.rs"],
  [("events of requests","pool/src/pool/actions.rs"),("bad_debt events","pool/src/pool/bad_debt.rs"),("write-off events","pool/src/auctions/bad_debt_auction.rs"),("events of deposits and withdrawals","backstop/src/contract.rs"),("deposit events of claims","backstop/src/emissions/claim.rs"),("emitter events","emitter/src/contract.rs")],
  [],["contract events"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80, x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
