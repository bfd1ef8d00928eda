#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes; no check runs it)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

HI = ["histories", "inputs"]
HIC = ["histories", "inputs", "configurations"]
p("C01", "A pool's token holdings cover everything it owes",
  "For every reserve of a pool, the tokens the pool holds plus what its borrowers owe are at least what its suppliers and the backstop's credit may claim, up to rounding that always favours the pool. No call lets tokens leave a pool except as the exact counterpart of a reduced claim or an added debt, and no reward, claim or auction is paid out of depositors' tokens. The only departure is a loss that has been defaulted because the backstop could not cover it.",
  HIC, "Every sequence of calls by every party, over every reserve configuration, decimals, price and elapsed time.",
  "Unit tests fix a handful of amounts and rates and look at one call; the gap between holdings and claims only shows after interleaved supplies, borrows, accruals, liquidations and claims with adverse rounding.",
  ["pool/src/pool/submit.rs", "pool/src/pool/actions.rs", "pool/src/pool/reserve.rs", "pool/src/auctions/backstop_interest_auction.rs"],
  [("token transfers made from the net effect of the requests", "pool/src/pool/submit.rs"), ("rounding helpers of the reserve", "pool/src/pool/reserve.rs")],
  ["token balances of the pool", "reserve records", "positions"],
  [("reserve data", "supply, liabilities, rates and backstop credit of one asset", "pool/src/storage.rs")])
p("C02", "A reserve's share supplies equal the sum of all accounts' positions",
  "For every reserve, the recorded supply of deposit shares equals the sum over all accounts of their supplied and collateral shares, and the recorded supply of debt shares equals the sum of all accounts' debt shares; every balance is positive or absent. No call changes the position of an account that is not party to it. Moving bad debt moves it, never creates or destroys it, and defaulting it removes it from both sides.",
  HI, "Every sequence of calls, including several requests on one asset in a call, liquidations, bad debt moves and defaults.",
  "Tests compare single positions after single calls; double counting needs several requests on one reserve, self transfers of positions in auctions and the bad debt paths.",
  ["pool/src/pool/user.rs", "pool/src/pool/actions.rs", "pool/src/pool/bad_debt.rs", "pool/src/auctions"],
  [("positions and reserve supply are changed together", "pool/src/pool/user.rs"), ("reserve cache written back once", "pool/src/pool/pool.rs")],
  ["positions of all accounts", "reserve supplies"])
p("C03", "Each request moves exactly the stated value and rounds against its sender",
  "A batch of requests changes the sender's position and moves the tokens between spender, pool and recipient exactly as its requests say, in order, with share conversions at the current rate rounded against the sender. Withdrawals and repayments are capped at the position and excess repayment is returned. A batch either applies completely or leaves no trace, and requests with non-positive amounts, unknown types or unknown assets are refused.",
  HIC, "Every batch of every request type, with every amount including dust and values above the position, at every interest rate and number of decimals.",
  "Tests use round amounts and short batches; the amounts where rounding, caps and the net effect of several requests on one asset interact are not sampled.",
  ["pool/src/pool/actions.rs", "pool/src/pool/submit.rs", "pool/src/pool/reserve.rs", "pool/src/pool/user.rs"],
  [("request dispatch", "pool/src/pool/actions.rs"), ("conversion between tokens and shares", "pool/src/pool/reserve.rs")],
  ["token balances", "positions", "return value of the call"])
p("C04", "Interest accrues exactly once, by the rate model, to suppliers and backstop",
  "Whenever a pool is used, every touched reserve first accrues the interest of the time elapsed since its last accrual, at the rate its utilisation and configured curve give, exactly once however often it is touched in between. What borrowers owe more is what suppliers gain plus the backstop's take at the rate in force while it accrued, up to rounding, and rates of deposit and debt shares never fall except for a recorded loss. The reactive rate modifier moves by the utilisation error and stays within its bounds.",
  HIC, "Every utilisation, curve, modifier, elapsed time and take rate, and every order of touching reserves.",
  "Tests evaluate the rate formula at chosen points; that no path skips, repeats or uses a stale parameter for an accrual is a property of all call sequences.",
  ["pool/src/pool/interest.rs", "pool/src/pool/reserve.rs", "pool/src/pool/pool.rs", "pool/src/pool/config.rs"],
  [("interest rate calculation", "pool/src/pool/interest.rs"), ("accrual on load", "pool/src/pool/reserve.rs")],
  ["reserve records", "ledger time"])
p("C05", "No call leaves a borrower worse off than the required health",
  "After any call that lets an account borrow, withdraw collateral or take over an auction, that account's effective collateral covers its effective debt by the required margin at current prices and rates, or the call is refused. Accounts that only supply or repay are never refused for their health. The valuation uses each asset's own factors, decimals and price with every position counted, and rounds against the account.",
  HIC, "Every position over several assets with any factors, decimals, prices, rates, and every mix of requests.",
  "The tests fix a few positions; a missed check needs a particular mix of requests (collateral moved between two assets, a fill that brings debt) at a particular price.",
  ["pool/src/pool/health_factor.rs", "pool/src/pool/submit.rs", "pool/src/pool/actions.rs"],
  [("health check after the requests were applied", "pool/src/pool/submit.rs"), ("position valuation", "pool/src/pool/health_factor.rs")],
  ["positions", "prices", "acceptance or refusal of the call"])
p("C06", "Borrowing respects the utilisation cap and the position limit",
  "A borrow that would put a reserve above its configured maximum utilisation is refused, and one at or below it is not. No call lets an account come to hold more distinct positions than the pool allows, however it acquires them, while calls that do not add positions are not refused for it. Withdrawals never let more tokens leave than the reserve has unborrowed.",
  HIC, "Every utilisation, cap, number of positions and mix of requests in a batch.",
  "Whether a limit can be evaded depends on the order and combination of requests and on interest accrued since, which tests do not vary.",
  ["pool/src/pool/actions.rs", "pool/src/pool/submit.rs", "pool/src/pool/reserve.rs", "pool/src/pool/pool.rs"],
  [("utilisation check on borrow", "pool/src/pool/actions.rs"), ("position limit check", "pool/src/pool/pool.rs")],
  ["reserve utilisation", "positions"])
p("C07", "Every valuation uses the oracle's fresh price for that asset",
  "Whenever a decision needs the value of an asset, the price is the one the pool's oracle reports for exactly that asset, scaled by the oracle's decimals. A missing price or one older than a day stops the call; a fresh one does not. Calls that value nothing do not depend on the oracle.",
  HIC, "Every price, price age, oracle precision and asset, for every call that values something.",
  "The tests keep the price fresh and the precision at seven decimals nearly everywhere; staleness in one of several assets and other precisions are rarely combined with each call.",
  ["pool/src/pool/pool.rs", "pool/src/pool/health_factor.rs", "pool/src/auctions/bad_debt_auction.rs", "pool/src/auctions/backstop_interest_auction.rs"],
  [("price cache with staleness check", "pool/src/pool/pool.rs")],
  ["oracle state", "acceptance or refusal", "auction amounts", "positions"])
p("C08", "Pool actions need the consent of exactly the accounts they affect",
  "A pool call changes an account's position, spends its tokens, claims its rewards or changes the pool's configuration only with the signature of that account, spender or the pool's admin, and each signature covers the tokens moved and no more. Admin rights pass only with the consent of both the old and the new admin. Calls open to anyone ask for no signature.",
  HIC, "Every call with every combination of signers, including distinct sender, spender and recipient.",
  "Most tests let every signature pass; the few that look at signatures do so for one call and one set of parties.",
  ["pool/src/contract.rs", "pool/src/pool/submit.rs", "pool/src/pool/config.rs"],
  [("authorisation at each entry point", "pool/src/contract.rs")],
  ["signatures demanded by the call", "acceptance when a signer is missing"])
p("C09", "A pool's status decides which actions it admits",
  "When active, a pool admits every action; when on ice, no new borrowing and no cancelling of auctions; when frozen or not yet set up, also no new deposits. Withdrawing, repaying and filling auctions are admitted in every status. A batch is refused as a whole if any of its requests is not admitted.",
  HIC, "Every status, request type and position of the request in a batch.",
  "Tests try single requests in some statuses, not each type at each place of a batch with the statuses reached by real transitions.",
  ["pool/src/pool/pool.rs", "pool/src/pool/actions.rs", "pool/src/contract.rs", "pool/src/auctions/auction.rs"],
  [("status check per action", "pool/src/pool/pool.rs")],
  ["pool status", "acceptance or refusal"])
p("C10", "Pool status follows the backstop's health and the admin's rank",
  "Anyone may bring the status in line with the backstop: with enough deposits and few queued withdrawals it becomes active, otherwise on ice or frozen, by the published thresholds. What the admin set yields only to a backstop bad enough for that status, set-up and admin freeze to nothing; and the admin can set only the statuses the backstop's state permits. Status changes in no other way.",
  HIC, "Every amount of backstop deposits and queued withdrawals, token mix and current status, and every order of updates and admin calls.",
  "Tests place the backstop at chosen points; boundary values, and transitions from each status under each backstop condition reached by real deposits and queueing, are not swept.",
  ["pool/src/pool/status.rs", "backstop/src/backstop/pool.rs", "pool/src/contract.rs"],
  [("status transition functions", "pool/src/pool/status.rs"), ("threshold on the product constant", "pool/src/pool/status.rs")],
  ["pool status before and after", "backstop pool data"])
p("C11", "Reserve settings change only as queued, after the delay, and validated",
  "A reserve's settings change only to what the admin queued, after the full delay for an existing reserve or a pool past set-up, and never if they fail validation. Changing settings keeps the reserve's index, decimals, balances, rates and accrued interest, settled under the old settings first. Other pool parameters change only by the admin's call and within their bounds.",
  HIC, "Every reserve configuration, order of queueing, cancelling, applying and using the reserve, and elapsed time.",
  "The tests validate chosen bad configurations and apply one change; interleavings with use, re-queueing and boundary times are left out.",
  ["pool/src/pool/config.rs", "pool/src/storage.rs"],
  [("queue with unlock time", "pool/src/pool/config.rs"), ("metadata validation", "pool/src/pool/config.rs")],
  ["reserve configuration and data", "queued entries", "pool parameters"])
p("C12", "A liquidation opens only against an unhealthy account and is sized to heal it",
  "An auction of an account's collateral can be opened only while its effective debt exceeds its effective collateral, one at a time, for a percentage from 1 to 100. Its bid is that share of every debt and its lot the collateral of matching value with the specified premium, never more than the account has. A size that would leave the account below or above the allowed health band is refused, unless it is a full liquidation that cannot do better; an account with an open auction can only end it by restoring its health.",
  HIC, "Every underwater account over several assets, percentage, price, factor and rate.",
  "The tests liquidate a few hand-made accounts at hand-picked percentages.",
  ["pool/src/auctions/user_liquidation_auction.rs", "pool/src/auctions/auction.rs", "pool/src/pool/actions.rs"],
  [("creation of the auction with the health band checks", "pool/src/auctions/user_liquidation_auction.rs")],
  ["auction record", "acceptance or refusal", "positions"])
p("C13", "An auction fill exchanges exactly the scheduled share of bid and lot",
  "A fill pays the bid and receives the lot scaled by the elapsed blocks on the published schedule (lot rises over 200 blocks, then the bid falls over 200) and by the percentage filled, rounded against the filler. What is not filled stays on offer unchanged and a full fill removes the auction; nothing can be filled before the next block, above 100 percent or at 0, nor by the owner. Filling in several parts never gives more for less than filling at once.",
  HIC, "Every auction type, block offset, percentage and sequence of partial fills.",
  "The tests fill at a few block offsets and percentages with round amounts.",
  ["pool/src/auctions/auction.rs", "pool/src/auctions/user_liquidation_auction.rs", "pool/src/auctions/bad_debt_auction.rs", "pool/src/auctions/backstop_interest_auction.rs"],
  [("scaling of the auction", "pool/src/auctions/auction.rs")],
  ["auction record before and after", "positions and balances of filler, owner and backstop"])
p("C14", "Bad debt goes to the backstop, is auctioned for its deposits, then defaults",
  "Debt of an account with no collateral moves whole to the pool's backstop, and no other debt does. The backstop's debt can be auctioned only for its deposits, at the published premium and never for more than it has, and the filler takes over exactly the debt it bids. Debt is defaulted on suppliers only when the backstop's deposits of that pool are below the published minimum, and then all of it.",
  HIC, "Every debt over several assets, backstop size, price and sequence of partial fills and new debt.",
  "The tests run one or two bad debt stories; how partial fills, falling deposits, a failing lot transfer and new debt interleave is left open.",
  ["pool/src/pool/bad_debt.rs", "pool/src/auctions/bad_debt_auction.rs", "backstop/src/backstop/fund_management.rs"],
  [("transfer and burn of bad debt", "pool/src/pool/bad_debt.rs"), ("bad debt auction", "pool/src/auctions/bad_debt_auction.rs")],
  ["positions of the backstop", "backstop pool balance", "auction record"])
p("C15", "The backstop's interest share is exact and sold only by auction for LP tokens",
  "Each reserve's credit for the backstop grows only by its take of accrued interest, and shrinks only by what interest auctions pay out, never below zero. An interest auction offers exactly the credit of the named reserves once it is worth the published minimum, and asks for LP tokens at the published premium. The LP tokens paid are credited to that pool's depositors in full.",
  HIC, "Every set of reserves, credit, price, LP value, block offset and partial fill.",
  "The tests create auctions from one set of credits; repeated reserves, credits that grow during an auction and successive partial fills are not sampled.",
  ["pool/src/auctions/backstop_interest_auction.rs", "pool/src/pool/reserve.rs", "backstop/src/backstop/fund_management.rs"],
  [("interest auction", "pool/src/auctions/backstop_interest_auction.rs"), ("gulping of interest", "pool/src/pool/reserve.rs")],
  ["reserve credit", "auction record", "backstop pool balance"])
p("C16", "Pool emissions are shared by time and balance and can always be paid",
  "The tokens a pool distributes to a reserve's suppliers or borrowers accrue per second at the configured rate in proportion to balances held in that time, whoever calls what and when. Nobody loses accrued rewards except by claiming them, nobody can claim them twice or for another account, and a claim pays exactly what accrued. All that has been promised is covered by what the pool may draw, and a new distribution carries over what was undistributed.",
  HIC, "Every sequence of supply, transfer by auction, claim, re-configuration and re-funding, at every balance and time.",
  "The tests run fixed sequences; missed or double settlement needs a balance change through one of the rarer paths between two particular claims.",
  ["pool/src/emissions/distributor.rs", "pool/src/emissions/manager.rs", "pool/src/pool/user.rs"],
  [("settlement before a balance changes", "pool/src/pool/user.rs"), ("index update", "pool/src/emissions/distributor.rs")],
  ["emission records", "reward token balance and allowance", "return value of claims"])
p("C17", "Everyone can get out: exits stay open whatever others did",
  "Whatever calls have been made before, a borrower can repay and a supplier can withdraw in full as soon as the tokens are there, and a backstop depositor can queue and withdraw after the delay. No sequence of valid calls leaves the protocol in a state in which these calls fail for any reason other than lack of tokens, health or an open withdrawal delay. After all debts are repaid, all suppliers together can withdraw everything.",
  HIC, "Every history of calls followed by every account leaving in any order (bounded: within one exit call per position once debts are repaid).",
  "Tests end where their story ends; a stuck state shows only when someone tries to leave after an unusual history.",
  ["pool/src/pool/actions.rs", "pool/src/pool/reserve.rs", "pool/src/pool/interest.rs", "backstop/src/backstop/withdrawal.rs"],
  [("withdraw and repay are admitted in every status", "pool/src/pool/pool.rs"), ("queue and withdrawal", "backstop/src/backstop/withdrawal.rs")],
  ["acceptance of exit calls at the end of a history", "final balances"])
p("C18", "The backstop holds every LP token it has recorded",
  "The backstop's LP tokens are at least the sum of what it records for each pool; each pool's shares equal the sum of its depositors' shares, and its queued shares the sum of their queues. Tokens leave only by withdrawal, by a draw of the pool concerned, and are credited only to the pool concerned. No pool's loss or gain touches another pool's depositors, and deposits exist only for pools of the factory.",
  HI, "Every sequence of deposits, queueing, draws, donations, claims and withdrawals over several pools and users.",
  "Tests follow one pool and one or two users; aggregation errors need several users, pools and repeated entries.",
  ["backstop/src/backstop/pool.rs", "backstop/src/backstop/user.rs", "backstop/src/backstop/deposit.rs", "backstop/src/backstop/withdrawal.rs", "backstop/src/emissions/claim.rs"],
  [("paired updates of pool and user balance", "backstop/src/backstop/deposit.rs")],
  ["LP token balances", "pool and user balances"])
p("C19", "Backstop shares are priced fairly and never dilute other depositors",
  "Depositing mints and withdrawing burns shares at the pool's current tokens per share, rounded against the caller; one deposit that would mint nothing is refused. No deposit, withdrawal, donation or claim lowers what the remaining depositors' shares are worth; only a draw does. The recorded value of the LP token follows its underlying balances and only by the published rule.",
  HIC, "Every balance, share price (also after draws and donations) and amount including dust.",
  "Tests deposit at a 1:1 price or a few others; rounding in sequences and extreme share prices are not explored.",
  ["backstop/src/backstop/pool.rs", "backstop/src/backstop/deposit.rs", "backstop/src/backstop/withdrawal.rs", "backstop/src/dependencies/comet.rs"],
  [("share conversion", "backstop/src/backstop/pool.rs")],
  ["shares and tokens before and after", "LP token transfers"])
p("C20", "Queued withdrawals wait out the delay and cannot be jumped or lost",
  "Shares leave the backstop only after they were queued for the full delay; until then they keep bearing losses and earn no emissions. Queueing, cancelling and withdrawing move exactly the stated shares between free, queued and paid out, always taking the oldest entries first, and never more than is there. A user has at most the permitted number of queue entries and a queued entry is never lost or unlocked early.",
  HI, "Every sequence and amount of queue, cancel and withdraw calls at every time.",
  "Tests use one to three entries and amounts that match them.",
  ["backstop/src/backstop/user.rs", "backstop/src/backstop/withdrawal.rs"],
  [("queue of withdrawals", "backstop/src/backstop/user.rs")],
  ["user queue", "pool queued shares", "ledger time"])
p("C21", "Backstop actions need the consent of those they affect; only pools draw",
  "Depositing, queueing, cancelling, withdrawing and claiming need the account's signature and act only for it; drawing needs the pool itself, donating both donor and pool. Each signature covers the tokens moved and no more. Calls open to anyone ask for no signature.",
  HI, "Every call with every combination of signers.",
  "Most tests let every signature pass.",
  ["backstop/src/contract.rs", "backstop/src/backstop/fund_management.rs", "backstop/src/dependencies/pool_factory.rs"],
  [("authorisation at each entry point", "backstop/src/contract.rs")],
  ["signatures demanded by the call", "acceptance when a signer is missing"])
p("C22", "Backstop emissions are shared by time and unqueued shares, and stay funded",
  "BLND distributed to a pool's backstop accrues per second in proportion to shares not queued for withdrawal in that time, whoever calls what and when. Nobody loses accrued emissions except by claiming them, which deposits exactly their value in LP tokens for that user, and nobody can claim twice or for another. All the BLND promised to depositors and pools is held by the backstop or allotted to the pool.",
  HIC, "Every sequence of deposits, queueing, cancelling, gulping, claims over several pools, and elapsed time.",
  "The tests run fixed stories; each missed settlement found here needed a claim by several pools or a queue change between two distributions.",
  ["backstop/src/emissions/distributor.rs", "backstop/src/emissions/claim.rs", "backstop/src/emissions/manager.rs"],
  [("settlement before shares change", "backstop/src/emissions/distributor.rs"), ("claim", "backstop/src/emissions/claim.rs")],
  ["emission records", "BLND balance and allowances", "deposits made by claims"])
p("C23", "Distributions are split over a reward zone that admits only qualified pools",
  "New BLND is divided among the pools of the reward zone in proportion to their unqueued deposits, 70 percent to depositors and 30 percent to the pool, with nothing created and only rounding dust lost. A pool enters the zone only with enough deposits, in a free or newly opened place, or replacing one with less; nobody else leaves. The zone grows by the published schedule, holds no pool twice, and a pool is replaced only after a recent distribution.",
  HIC, "Every zone, set of deposits, elapsed time and order of gulping, adding and replacing.",
  "The tests use zones of one to three pools at chosen times.",
  ["backstop/src/emissions/manager.rs", "backstop/src/storage.rs"],
  [("gulp and split", "backstop/src/emissions/manager.rs"), ("reward zone changes", "backstop/src/emissions/manager.rs")],
  ["reward zone", "emission records", "BLND minted"])
p("C24", "The emitter mints one BLND a second, only to the current backstop",
  "Only the current backstop can take the emission; it is exactly one BLND for each second since the previous one, so no second is paid twice or skipped, however calls are spaced and whoever holds the role. Nothing else creates BLND except a drop. All BLND in existence is the initial supply, the seconds issued and the drops.",
  HI, "Every spacing of distributions, swaps and calls by others.",
  "The tests distribute once or twice.",
  ["emitter/src/emitter.rs", "emitter/src/contract.rs", "emitter/src/storage.rs"],
  [("distribution by elapsed time", "emitter/src/emitter.rs")],
  ["BLND supply", "time of last distribution"])
p("C25", "The emitter's backstop changes only to a larger one, delayed; drops happen once",
  "A swap of the emitter's backstop can be queued only for a backstop holding more LP tokens than the current one, one at a time, takes effect only after the full delay and only if it still holds more, and can be cancelled exactly when it no longer does. Emission up to the swap goes to the old backstop. Each backstop can make one drop, of at most the permitted total, to the list fixed when it was set up.",
  HIC, "Every history of balances, queueing, cancelling, swapping and dropping, at every time.",
  "The tests check each refusal once from a clean state.",
  ["emitter/src/backstop_manager.rs", "emitter/src/emitter.rs", "backstop/src/contract.rs"],
  [("queued swap", "emitter/src/backstop_manager.rs"), ("drop", "emitter/src/emitter.rs")],
  ["backstop of record", "queued swap", "BLND minted to the list"])
p("C26", "Contracts are set up once, as stated; the factory vouches only for its own",
  "A pool, backstop, emitter or factory can be initialised once and then has exactly the stated parameters; invalid parameters are refused. A pool deployed through the factory has the stated admin, oracle, take rate and position limit, the factory's backstop and BLND, starts in set-up, and needs the admin's signature. The factory confirms an address as a pool if and only if it deployed it, and nobody can take the address another deployer's salt would give.",
  ["histories", "inputs", "configurations"], "Every order of initialising and deploying, every argument and every deployer.",
  "Tests deploy one pool with one set of arguments.",
  ["pool-factory/src/pool_factory.rs", "pool/src/pool/config.rs", "backstop/src/contract.rs", "emitter/src/contract.rs"],
  [("initialise-once guards", "pool/src/pool/config.rs"), ("factory deploy", "pool-factory/src/pool_factory.rs")],
  ["stored parameters of each contract", "factory answers"])
p("C27", "What the contracts report is what they hold",
  "Every read-only call returns the recorded or, where documented, the current value of what it names, for every account including ones never seen, and changes nothing. Every changing call returns what it did: the resulting position, the auction created, the shares minted, the tokens paid. Reports across contracts agree: what a pool is told of its backstop is what the backstop records.",
  HI, "Every state reached and every account and id asked for.",
  "Tests read back the value they just wrote in one state.",
  ["pool/src/contract.rs", "backstop/src/contract.rs", "emitter/src/contract.rs", "backstop/src/backstop/pool.rs"],
  [("read-only entry points", "pool/src/contract.rs")],
  ["return values", "ledger entries"])

NOTE = ("Runtime monitoring of seeded random and scenario-directed histories of the real contracts in the Soroban host; every "
        "operation's outcome, ledger effect, token flow and signature demand is judged by an online executable specification and "
        "by independent invariants. Held on the executions observed (counts in the evidence), not proved. Trusts the Soroban test "
        "host, the stand-ins for the Comet LP token and the oracle, and the specification in harness/src/model.rs.")
if __name__ == "__main__":
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    tech = {"C17": "runtime monitoring: bounded-progress exit run at the end of every monitored history",
            "C26": "runtime monitoring: initialisation monitor in every history, plus real factory deployments of the pool wasm"}
    m = {"version": 1, "setup_cmd": "./check.sh build",
         "checks": [{"property": d["id"], "quick_cmd": "./check.sh " + d["id"], "thorough_cmd": "./check.sh " + d["id"],
                     "evidence_file": "evidence/%s.json" % d["id"],
                     "technique": tech.get(d["id"], "runtime monitoring: online specification and invariant monitors over randomised hostile call histories"),
                     "level": "exploration", "level_note": NOTE} for d in P],
         "not_applicable": [],
         "notes": "No hooks in /repo: everything is observed from outside, through the host's ledger, events of token contracts and recorded authorisations."}
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
