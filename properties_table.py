prop("C01", "Token supply always equals the sum of balances; value is only moved, minted or burned by rule",
 "For every denomination the recorded total supply equals the sum of all account and module balances after every message and every block, and no balance is ever negative. Apart from delegation interest (minted) and the burned part of fees and explicit burns, no operation changes how much value exists: main, delegated and revoking tokens together stay constant.",
 ["histories", "inputs"], "all sequences of bank, delegation, subscription, storage/VPN, IM, voting-fee and validator-reward operations, all amounts (including 0, dust and more than the balance), successful or failed, interleaved with blocks and scheduled events",
 "tests check a few hand-picked transfers; errors swallowed in the middle of scheduled work (which is not rolled back) only show on rare histories",
 ["x/bank/internal/keeper/keeper.go", "x/bank/internal/keeper/send.go", "util/fee.go", "x/delegating/keeper/keeper.go", "x/noding/keeper/keeper.go", "x/profile/keeper/subscription.go"],
 [("add/subtract coins and set supply together", "x/bank/internal/keeper/send.go, keeper.go MintCoins/BurnCoins"), ("fee splitting and burning of the remainder", "x/noding/keeper/keeper.go, util/fee.go")],
 [("balances", "coins of every account", "artrbank store"), ("supply", "recorded total", "artrbank store, key 0x00")], ["balance and supply queries"])
prop("C02", "Transfers: exact debit, credit and fee; refused transfers change nothing",
 "A transfer debits the sender by exactly the amount plus the transaction fee, credits the recipient by exactly the amount, and the fee is the configured rate capped at its maximum and rounded so that the block proposer, the company and burning receive exactly their configured shares in the next block. Transfers below the minimum, of anything but the main token, to unknown accounts, from blocked senders or beyond the balance are refused and leave no trace.",
 ["inputs", "histories", "configurations"], "all amounts around every threshold, all fee rates/caps/split ratios, all sender/recipient relations (including oneself), multi-coin amounts, across blocks with and without a known proposer",
 "tests use one rate, one split and one or two amounts; rounding and the fee pipeline across blocks are not sampled",
 ["x/bank/internal/keeper/msg_server.go", "x/bank/internal/keeper/send.go", "util/fee.go", "x/noding/keeper/keeper.go"],
 [("send checks and fee payment", "x/bank/internal/keeper/msg_server.go"), ("fee computation", "util/fee.go"), ("fee distribution at block start", "x/noding/abci.go")])
prop("C03", "Referral aggregates equal what the tree and the balances say",
 "At all times every account's per-level own/total coin and delegated-token aggregates equal the sums, recomputed from scratch over the referral tree and the current balances, of the accounts on each of the ten levels below it.",
 ["histories"], "all sequences of transfers, delegations, revocations, sign-ups, referrer changes, compressions, banishments and returns over trees deeper than ten levels, with every level boundary exercised",
 "the incremental updates are spread over every operation that touches a balance or the tree; tests exercise shallow trees and single operations",
 ["x/referral/keeper/keeper.go", "x/referral/keeper/bunch_updater.go", "x/referral/types/types.go", "x/bank/internal/keeper/send.go"],
 [("incremental update on balance change", "x/referral/keeper/keeper.go OnBalanceChanged"), ("subtree moves", "x/referral/keeper/keeper.go Compress, transition")],
 [("coins, delegated", "per-level aggregates", "referral store")], ["referral coins query"])
prop("C04", "Active-referral counts equal what the tree and the activity flags say",
 "At all times every account's number of active referrals per level, its list of active direct referrals and every activity flag agree with the referral tree and with who currently holds an active subscription.",
 ["histories"], "all sequences of activations, expiries, sign-ups, referrer changes, compressions, banishments and returns over trees deeper than ten levels",
 "counts are adjusted incrementally on each event; tests check one event at a time",
 ["x/referral/keeper/keeper.go", "x/referral/keeper/bunch_updater.go", "x/profile/keeper/subscription.go"],
 [("activity callbacks", "x/referral/keeper/keeper.go SetActive"), ("subtree moves", "x/referral/keeper/keeper.go")])
prop("C05", "The referral structure is always a forest with consistent parent and child links",
 "Every account other than the top-level ones has exactly one referrer, is listed exactly once among that referrer's referrals and nowhere else, and following referrers from any account always ends at a top-level account (or at a banished account that is detached from its tree).",
 ["histories"], "all sequences of sign-ups, referrer-change requests and answers, compressions, banishments and returns",
 "parent and child links are separate records updated by several operations; cycles and lost children need multi-step histories",
 ["x/referral/keeper/keeper.go", "x/referral/keeper/bunch_updater.go"],
 [("append/transition/compress/banish/come back", "x/referral/keeper/keeper.go")])
prop("C06", "Status follows the requirements: promotion at once, demotion only after the grace period",
 "An account in the referral is promoted right after the change that makes it meet the requirements of better statuses, step by step and never beyond what it meets. It loses a status only if the requirements are unmet when its scheduled downgrade arrives (two days after they ceased to be met), one status per downgrade, or to the lowest one when compressed; a downgrade that became pointless is cancelled at once. The list of high statuses names exactly those who hold them.",
 ["histories"], "all sequences of balance, delegation, activity and tree changes around every requirement threshold interleaved with time around the grace period",
 "the downgrade is a scheduled event racing with later changes; tests cover a single promotion and a single downgrade",
 ["x/referral/keeper/status_requirements.go", "x/referral/keeper/keeper.go", "x/referral/keeper/bunch_updater.go", "x/referral/keeper/hooks.go"],
 [("status check queue", "x/referral/keeper/bunch_updater.go"), ("downgrade event", "x/referral/keeper/hooks.go")])
prop("C07", "Inactive accounts are compressed and banished exactly when due, and never while active",
 "An account below another one whose subscription stays inactive is compressed (its referrals pass to its nearest ancestor) exactly when the compression period ends, and is banished exactly when the banishment period ends, which runs while it is inactive, uncompressed time is over and it delegates nothing substantial; paying again or delegating again cancels what is pending and brings a banished account back under a living ancestor. An account that is active is never compressed or banished, and top-level accounts never are.",
 ["histories"], "all interleavings of expiry, payment, delegation changes and block times around the compression and banishment instants, for accounts with and without referrals and referrers that are themselves compressed or banished",
 "timers from several earlier expiries may be pending at once; tests run one timer at a time",
 ["x/referral/keeper/keeper.go", "x/referral/keeper/hooks.go"],
 [("compression and banishment events", "x/referral/keeper/hooks.go")])
prop("C08", "Changing referrer takes a paid request and an answer from the current referrer, within its window",
 "A referrer change happens only after a valid request was made and paid for by the account itself and its current referrer approved it while the destination was still valid; refused or timed-out requests leave the tree unchanged, a request is closed only by its own answer or by its own timeout - not earlier and not later than its window ends - and nobody but the current referrer can answer it.",
 ["histories", "inputs"], "all sequences of requests, approvals, refusals, timeouts, compressions and status changes for every triple of accounts",
 "needs several requests and timeouts in one history; tests cover one request each",
 ["x/referral/keeper/keeper.go", "x/referral/keeper/msg_server.go", "x/referral/keeper/hooks.go"],
 [("transition protocol", "x/referral/keeper/keeper.go RequestTransition/AffirmTransition/CancelTransition")])
prop("C09", "Delegated tokens come back exactly, exactly once, and only after the revoking period",
 "Delegating moves exactly the amount (less any fee) from main to delegated tokens; revoking takes exactly the revoked amount, burns exactly the configured share of it, locks the rest and returns all of that, once, when its own period ends; an express revoke does the same with its own shorter period and larger share. At all times the locked balance equals the sum of the outstanding requests, and no more than what is delegated can be revoked.",
 ["histories", "inputs"], "all sequences of delegate, revoke, express revoke (any amount) and blocks at, just before and long after the release times, with several requests outstanding at once, also for the same instant",
 "several outstanding requests with equal or crossing times are never tested",
 ["x/delegating/keeper/keeper.go", "x/delegating/keeper/hooks.go"],
 [("revoke requests and release event", "x/delegating/keeper/keeper.go, hooks.go")],
 [("requests", "outstanding revocations", "delegating store"), ("revoking balance", "uartrd locked", "artrbank store")])
prop("C10", "Delegation interest is paid exactly once per period for exactly what was delegated",
 "Every delegator receives, at the end of each accrual period, exactly the configured share of what was delegated for that time - partial periods started by changes of the delegated amount included -; interest is never paid twice, never lost, and stops when nothing is delegated.",
 ["histories", "configurations"], "all sequences of delegate, revoke, express revoke, activity changes and blocks at arbitrary steps around accrual times",
 "accrual state is carried across changes; tests check one period with one change",
 ["x/delegating/keeper/keeper.go", "x/delegating/keeper/hooks.go", "x/delegating/types/params.go"],
 [("accrue event and partial accrual", "x/delegating/keeper/keeper.go")])
prop("C11", "Scheduled tasks run exactly once, on time and in order; cancelled tasks never run",
 "Every scheduled task runs exactly once, in the first block whose time has reached it and never earlier, in order of time and, within one instant, of scheduling; a cancelled task never runs. This holds also for tasks scheduled or cancelled by a task while the schedule is being performed, when a task fails, and across arbitrary gaps between blocks.",
 ["histories", "programs"], "all sequences of scheduling, cancelling and blocks, where the tasks themselves schedule, cancel or fail",
 "tests schedule one or two passive tasks; tasks that touch the schedule while it runs are not tested",
 ["x/schedule/keeper/keeper.go", "x/schedule/abci.go", "x/schedule/genesis.go"],
 [("performing the schedule", "x/schedule/keeper/keeper.go PerformSchedule"), ("scheduling and cancelling", "x/schedule/keeper/keeper.go ScheduleTask/Delete/DeleteAll")],
 [("schedule", "tasks by instant", "schedule store")], ["schedule All/Get queries"])
prop("C12", "Nicknames and card numbers identify exactly one account and always resolve to it",
 "No two accounts ever share a nickname (ignoring case) or a card number; looking up a current nickname or card number gives its owner and looking up a released one gives nothing, and card numbers are assigned once and never change.",
 ["histories", "inputs"], "all sequences of sign-ups and profile updates with nicknames equal up to case or spaces, empty, malformed, reserved or taken, and with profile data supplied at sign-up",
 "lookup tables are separate records; tests set and change one nickname",
 ["x/profile/keeper/keeper.go", "x/profile/keeper/msg_server.go", "x/profile/types/msgs.go", "x/profile/types/card.go"],
 [("alias and card indexes", "x/profile/keeper/keeper.go"), ("validation", "x/profile/types/msgs.go")])
prop("C13", "A subscription is active exactly while paid for, and each payment buys exactly one month once",
 "An account is active exactly until the end of the time it has paid for; every payment - by hand or automatic - charges the price once at the current rate, extends the time by exactly the paid months, and goes to the company account without loss; automatic renewal happens only with consent and enough money, otherwise the account becomes inactive on time.",
 ["histories", "inputs"], "all sequences of manual payments, automatic renewals, rate changes, balance changes and blocks at, before and long after the expiry",
 "expiry is a scheduled event racing with payments; tests cover one payment or one renewal",
 ["x/profile/keeper/subscription.go", "x/profile/keeper/msg_server.go", "x/referral/keeper/keeper.go"],
 [("payment and renewal", "x/profile/keeper/subscription.go"), ("fees up the tree", "x/referral/keeper/keeper.go")])
prop("C14", "Storage, VPN and messenger quotas follow exactly what was paid for",
 "Storage, VPN and extra messenger quotas change only by a successful purchase, give-up, renewal or by the operators' usage reports; each costs exactly the pro-rated price, a quota is never below what is in use when given up, and expired extras are withdrawn or renewed on time.",
 ["histories", "inputs"], "all sequences of purchases, give-ups, usage reports, tariff payments and blocks around the expiry times, all amounts around the limits",
 "tests cover single purchases",
 ["x/profile/keeper/subscription.go", "x/profile/keeper/msg_server.go"],
 [("purchases and renewals", "x/profile/keeper/subscription.go")])
prop("C15", "The consensus engine's validator set always equals the set chosen by the rules",
 "Applying every validator-set update the application returns, from genesis on, always gives exactly the set of switched-on, not jailed, not banned validators chosen by score within the configured places plus the lottery places, with the powers the chain records; updates never name a key twice, never remove an absent key and never empty the set while someone is eligible.",
 ["histories", "configurations"], "all sequences of on, off, unjail, missed blocks, evidence, stake changes, key reuse and parameter changes",
 "tests look at single updates; the accumulated set and key reuse across operators are not checked",
 ["x/noding/keeper/keeper.go", "x/noding/abci.go", "x/noding/keeper/lottery.go"],
 [("validator updates", "x/noding/keeper/keeper.go GatherValidatorUpdates")],
 [("validator records", "status, key, score, strikes, last power", "noding store"), ("indexes", "consensus address to operator", "noding index store")], ["EndBlock validator updates", "noding state queries"])
prop("C16", "Jailing, unjailing and banning happen exactly by the rules",
 "A validator is jailed exactly when it misses the configured number of blocks in a row, can return only by its own unjail after the jail period, and is banned for life after repeated proof of double signing; a jailed or banned validator has no power, and votes or evidence about one validator never depend on other entries of the same block.",
 ["histories", "fault_sequences"], "all sequences of signed/missed votes, evidence and unjail attempts over several validators, with unknown addresses anywhere in the lists",
 "needs many blocks and mixed lists; tests use a single validator",
 ["x/noding/keeper/keeper.go", "x/noding/abci.go"],
 [("strokes, ticks, byzantine marks", "x/noding/keeper/keeper.go"), ("begin-block processing", "x/noding/abci.go")])
prop("C17", "Validator powers and lottery places are handed out exactly by the distribution",
 "With any number of validators the top places and their voting powers follow the score order and the configured slices, and lottery places go to the waiting validators in strict rotation, each waiting validator reaching the front in turn; nobody holds both kinds of place and no place is handed out twice.",
 ["histories", "configurations"], "all numbers of candidates around the configured limits, all slice configurations, all orders of joining, leaving and proposing",
 "tests use a single configuration",
 ["x/noding/keeper/lottery.go", "x/noding/keeper/vp_generator.go", "x/noding/keeper/keeper.go"],
 [("lottery queue", "x/noding/keeper/lottery.go"), ("power slices", "x/noding/keeper/vp_generator.go")])
prop("C18", "A proposal takes effect exactly if the government accepts it, once, within its time",
 "Only government members can propose and vote, each votes at most once, at most one proposal is open; it is accepted or rejected exactly by the stated majority - when all have voted or its time ends - its change is then applied exactly once and completely or not at all (a value the setting does not allow, or removing the last signer of a list, changes nothing, and voting goes on), and the outcome is recorded in the history.",
 ["histories", "inputs"], "all sequences of proposals of every type, votes by members and outsiders, and blocks at and around the deadline",
 "tests run one proposal at a time with full turnout",
 ["x/voting/keeper/keeper.go", "x/voting/keeper/msg_server.go", "x/voting/keeper/government.go"],
 [("proposal life cycle", "x/voting/keeper/keeper.go")])
prop("C19", "Polls count every eligible answer exactly once and are decided by quorum",
 "During a poll every account that meets its requirements can answer once and nobody else can; the reported counts always equal the answers given; when it ends the decision follows from the counts and quorum, and is recorded in the history.",
 ["histories", "inputs"], "all sequences of starting polls with every kind of requirement, answers, status/activity changes of voters and blocks around the end",
 "tests answer once",
 ["x/voting/keeper/keeper.go", "x/voting/keeper/poll.go"],
 [("poll life cycle", "x/voting/keeper")])
prop("C20", "Exporting the state and starting a new chain from it loses nothing",
 "Whatever history led to a state, exporting it gives a genesis that every module accepts, and a chain started from it at the next height has the same balances, supply, tree, aggregates, statuses, validators, schedule, profiles and their lookups, delegations, requests, votes, polls, histories, marks and parameters, tells the consensus engine the same validators, and behaves the same from then on. Only the lottery queue starts anew, and what no longer has an effect (consensus keys validators used before, a planned upgrade) may be left out.",
 ["histories"], "all states reached by bounded histories of every module's operations",
 "tests export a few hand-made states of single modules",
 ["app/export.go", "x/referral/keeper/genesis.go", "x/profile/keeper/genesis.go", "x/delegating/keeper/genesis.go", "x/noding/genesis.go", "x/voting/genesis.go", "x/schedule/genesis.go", "x/bank/internal/keeper/genesis.go", "x/earning/genesis.go"],
 [("export/init of every module", "x/*/genesis.go")])
prop("C21", "Privileged operations are open to exactly the configured accounts",
 "Every message takes effect only when signed by the account it acts for; operator-only messages (sign-up on behalf of others, usage reports, token rate, earners' marks, government actions) succeed only for the configured signers, by whatever route the message arrives, and a change of a signer list takes effect at once and only on that list.",
 ["inputs", "configurations"], "all message types signed by every account, under all contents of the signer lists",
 "tests exercise the allowed signer; refusals are hardly tested",
 ["x/profile/keeper/msg_server.go", "x/earning/keeper/msg_server.go", "x/voting/keeper/msg_server.go", "x/profile/types/params.go", "x/*/types/msgs.go"],
 [("signer checks", "x/*/keeper/msg_server.go"), ("required signers", "x/*/types/msgs.go")])
prop("C22", "Fractions are exact and survive every encoding",
 "Fraction arithmetic, comparison, rounding to tokens and reduction give the mathematically exact result for all operands, and parsing, printing and binary or JSON encoding round-trip to the same value, rejecting what is not a fraction.",
 ["inputs"], "all pairs of fractions with numerators and denominators in a range including zero, negative and extreme values",
 "tests check a handful of values",
 ["util/fraction.go"],
 [("arithmetic and encoding", "util/fraction.go")])
prop("C23", "The chain never halts, is deterministic and survives a restart at every block",
 "No sequence of transactions, votes, evidence or times makes block processing panic; two nodes fed the same blocks always compute the same application hash; and a node stopped and restarted at any block continues with the same results as one that was not.",
 ["histories", "crash_points", "inputs"], "all bounded sequences of blocks of transactions of all modules, restart after every commit",
 "tests call modules directly, never the real ABCI loop with a second node",
 ["app/app.go", "x/*/abci.go", "x/*/keeper"],
 [("ABCI application", "app/app.go")])
prop("C24", "Earners' marks are exactly what the authorised signers last set",
 "The VPN and storage earning marks of every account are exactly what a configured signer last set for it, whatever the order of single and multiple settings; each setting replaces exactly the entries it names; a mark earns its bonus for two days and is then over; and the single, multiple and list queries (all pages) show exactly these marks.",
 ["histories", "inputs"], "all sequences of set/set-multiple messages with duplicates, cleared marks and unknown accounts, blocks up to and past the two days, and all list pages",
 "tests set one or two",
 ["x/earning/keeper/keeper.go", "x/earning/keeper/msg_server.go"],
 [("earner records", "x/earning/keeper/keeper.go")])
prop("C25", "Queries never change anything and agree with each other",
 "No query of any module changes the state. On every reachable state the answers are what is stored and what the rules make of it, the legacy queries give the same answers as the gRPC ones, list queries page through exactly all items once whatever the page size, single-item queries agree with the lists, and asking about what does not exist is answered without failing the node.",
 ["histories", "inputs"], "all queries with all argument values present in the state on every state reached by bounded histories",
 "tests query single items on small states",
 ["x/*/keeper/query_server.go", "x/*/keeper/querier.go"],
 [("query servers", "x/*/keeper/query_server.go, querier.go")])
CLAIMED = {"C%02d" % i for i in range(1, 26)}
for p in P:
    p["_claimed"] = p["id"] in CLAIMED if "CLAIMED" in globals() else p["id"] in {"C11"}
