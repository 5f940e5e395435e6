#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

MB="contracts/core/mailbox/src/"
IF="packages/interface/src/"
p("C01","A message is delivered exactly once, or not at all and still deliverable",
 "Over a mailbox's whole life it hands each distinct message (identified by the keccak-256 hash of its full encoding) to its recipient at most once, whatever duplicated, reordered, concurrent, re-entrant or failing process calls are made. A message counts as delivered (message_delivered = true) exactly when one process call for it has committed, and an attempt that fails for any reason - verification, recipient failure, running out of gas - leaves it undelivered and processable again. A process call for an already delivered message always fails.",
 ["schedules","fault_sequences","crash_points","inputs","histories"],
 "every interleaving of process calls from any number of relayers, including calls re-entering from a recipient, gas exhaustion at any point, and messages that differ in any single field or byte",
 "Unit tests process one or two messages on a mocked querier with no sub-calls executed; they never re-enter, never interleave relayers, never abort a transaction midway and never compare ids of near-identical messages.",
 [MB+"execute.rs",MB+"state.rs",MB+"query.rs",IF+"types/message.rs",IF+"types/crypto.rs"],
 [("delivery check and record before the recipient call",MB+"execute.rs process"),("message id = hash of all fields",IF+"types/message.rs Message::id"),("delivered query",MB+"query.rs get_delivered")],
 ["mailbox process calls and the handle calls they make","query mailbox.message_delivered"],
 [("DELIVERIES","ids already delivered",MB+"state.rs")])
p("C02","Multisig ISM accepts exactly a quorum of distinct enrolled validators",
 "The multisig ISM reports a message verified only if the supplied signatures include at least the configured threshold of distinct, currently enrolled validators of the message's origin domain, each over the checkpoint digest binding that origin domain, the given origin merkle-tree address, root, index and this message's id. Conversely, metadata carrying well-formed signatures of at least threshold distinct enrolled validators over that digest is always accepted, in any order and with any recoverable foreign or repeated signatures mixed in. It answers against the validator set and threshold (always between one and the size of the set) most recently set by the owner for that domain, which verify_info and enrolled_validators report, and never accepts for a domain that has none.",
 ["inputs","histories","configurations","schedules"],
 "all validator sets, thresholds, set changes racing with in-flight checkpoints, signature subsets/orders/duplicates/corruptions, and messages from every domain",
 "The tests replay a handful of recorded metadata blobs against one fixed two-validator set; no duplicates, no set rotation, no other domain's set, no signature over a neighbouring digest.",
 ["contracts/isms/multisig/src/query.rs","contracts/isms/multisig/src/contract.rs","contracts/isms/multisig/src/lib.rs",IF+"types/metadata.rs",IF+"types/crypto.rs"],
 [("distinct-signer quorum count","contracts/isms/multisig/src/query.rs verify_message"),("digest construction","contracts/isms/multisig/src/lib.rs domain_hash, multisig_hash"),("threshold and set stored together","contracts/isms/multisig/src/contract.rs SetValidators/UnsetDomain")],
 ["query ism.verify / ism.verify_info / multisig_ism.enrolled_validators"])
p("C03","Only messages really dispatched at the origin are delivered (end to end)",
 "With fewer than threshold of an origin's enrolled validators corrupt, every message whose delivery rests on the multisig quorum was dispatched earlier by the origin chain's mailbox with exactly the delivered nonce, sender, destination, recipient and body, whatever attackers, faulty relayers and the network do to messages and metadata in between. In particular the sender a recipient sees is the account or contract that called dispatch on the origin chain, and nobody can obtain a delivery attributed to someone else.",
 ["schedules","fault_sequences","inputs","histories"],
 "two or three chains, any relaying schedule with loss, duplication, reordering, partitions, relayer crashes, byte-level tampering with messages or metadata, and any minority of corrupt validators signing arbitrary checkpoints",
 "No test runs two chains or carries a dispatched message through a real merkle hook, signed checkpoint, ISM and recipient; each hop is checked separately against mocks.",
 [MB+"execute.rs",MB+"query.rs","contracts/hooks/merkle/src/lib.rs","contracts/isms/multisig/src/query.rs","contracts/isms/routing/src/contract.rs","contracts/isms/aggregate/src/lib.rs"],
 [("sender bound to caller at dispatch",IF+"core/mailbox.rs DispatchMsg::to_msg"),("verification of the full message id",MB+"execute.rs process"),("quorum over the id","contracts/isms/multisig/src/query.rs")],
 ["dispatch events/ids at the origin","handle calls at the destination"])
p("C04","Processing is gated by version, domain and the right ISM, delivered faithfully",
 "A process call commits only for a message with the mailbox's protocol version and its own domain as destination, and only after the ISM named by the recipient - or the mailbox's current default ISM when the recipient names none - answered verified for exactly the submitted metadata and message. It then makes exactly one handle call, to the address encoded in the message's recipient field, carrying exactly the message's origin, sender and body and no funds. The recipient_ism query names the same ISM that process would consult at that moment.",
 ["schedules","inputs","histories","configurations"],
 "any message bytes and metadata, any recipient (plain contract, warp route, one with its own ISM, one whose ISM changes while messages are in flight), any order of owner configuration changes and process calls",
 "Tests drive process with one mocked ISM answer and one recipient; they never switch the ISM or default between calls, have the recipient name a different ISM, or check the call a real recipient receives.",
 [MB+"execute.rs",MB+"query.rs",IF+"ism/mod.rs",IF+"types/bech32.rs",IF+"types/message.rs"],
 [("version and destination checks, ISM selection, verify gate, handle call",MB+"execute.rs process"),("recipient ISM lookup",IF+"ism/mod.rs recipient"),("address decoding",IF+"types/bech32.rs bech32_encode")],
 ["queries and calls made by a committed process","query mailbox.recipient_ism"])
p("C05","Dispatch assigns gapless unique nonces and truthful ids, bound to the caller",
 "The n-th committed dispatch of a mailbox emits a message with nonce n-1 (starting at 0, no gaps or repeats), the mailbox's version and own domain, the caller as sender (left-padded to 32 bytes), and exactly the requested destination, recipient and body; a dispatch with a recipient that is not 32 bytes, and any failed dispatch, changes nothing. The returned message id, the dispatch events, the message given to hooks, and the latest_dispatch_id and nonce queries all agree with that message, so distinct dispatches always have distinct ids.",
 ["schedules","inputs","histories","fault_sequences"],
 "every interleaving of dispatches by users, contracts and hooks re-entering dispatch, with failures and gas exhaustion in between, over all destinations, recipients and bodies",
 "Tests perform single dispatches on mocks; none sequences many dispatches with failures and re-entrancy, nor cross-checks response, event, hook payload and queries.",
 [MB+"execute.rs",MB+"query.rs",MB+"event.rs",IF+"core/mailbox.rs",IF+"types/message.rs",IF+"types/bech32.rs"],
 [("nonce increment committed with the message",MB+"execute.rs dispatch"),("message construction",IF+"core/mailbox.rs DispatchMsg::to_msg")],
 ["dispatch response data and events","post_dispatch payloads","queries mailbox.nonce / latest_dispatch_id"],
 [("NONCE","next nonce",MB+"state.rs"),("LATEST_DISPATCHED_ID","id of last dispatch",MB+"state.rs")])
p("C06","The merkle hook commits to every dispatched message, in order",
 "Each committed post to a merkle hook appends exactly one leaf, the id of its mailbox's latest dispatched message: after n of them count is n, and root, checkpoint (index n-1), branch and tree are those of the depth-32 incremental keccak merkle tree over exactly those n ids. Calls for anything other than its mailbox's latest dispatched message are rejected and leave the tree unchanged, as does any failed transaction.",
 ["histories","schedules","inputs","fault_sequences"],
 "any number of insertions (into the thousands), interleaved with rejected or aborted calls, direct calls by outsiders, and re-entrant dispatches",
 "Tests insert a few recorded leaves; tree shapes at larger counts, aborted insertions and stale or foreign messages are never exercised together.",
 ["contracts/hooks/merkle/src/lib.rs",IF+"types/merkle.rs"],
 [("incremental insert and root",IF+"types/merkle.rs"),("latest-dispatched check","contracts/hooks/merkle/src/lib.rs post_dispatch")],
 ["queries merkle_hook.count / root / check_point / branch / tree","post_dispatch calls"])
p("C07","Every dispatch runs the required hook, then the chosen hook, with all funds",
 "Each committed dispatch calls post_dispatch on the mailbox's current required hook with exactly the fees that hook quotes for this message, and then on the hook chosen by the caller (or the current default hook) with all the remaining attached funds, both with exactly the dispatched message and metadata. If the attached funds do not cover the required hook's quote the dispatch fails. No part of the attached funds ever stays in the mailbox, and no dispatch can avoid the required hook.",
 ["inputs","configurations","schedules","histories"],
 "any funds (several denominations, exact, short, surplus), any hook trees, custom hook choices including re-entrant and hostile ones, and owner changes of the hooks between dispatches",
 "The unit tests check one dispatch against a mock quote; nothing executes the sub-calls, mixes denominations, or lets hooks change while dispatches are in flight.",
 [MB+"execute.rs",IF+"hook/mod.rs",IF+"core/mailbox.rs"],
 [("fee split and post-dispatch messages",MB+"execute.rs dispatch"),("hook selection",IF+"core/mailbox.rs get_hook_addr")],
 ["post_dispatch calls made by a committed dispatch and their funds","bank balance of the mailbox"])
p("C08","A dispatch funded with its quote succeeds",
 "For any hook composition the system offers (merkle, fee, pausable, aggregate, routing, custom-routing, fallback-routing, gas paymaster, nested in any way), a dispatch carrying exactly the fees reported by the mailbox's quote_dispatch for the same sender and arguments is accepted in the same state, provided every involved gate is open and every hook can quote. Paying the quote leaves no part of it behind in the mailbox or in any forwarding hook. This includes quotes that are zero.",
 ["configurations","inputs","histories"],
 "all hook trees and nestings, fee amounts and denominations including zero fees, gas metadata present or absent, any sender and destination with a configured route",
 "Each hook is tested alone with mocked neighbours; no test quotes a composition and then pays it, so a hook that drops forwarded funds or rejects a zero quote goes unnoticed.",
 [MB+"query.rs",MB+"execute.rs","contracts/hooks/aggregate/src/lib.rs","contracts/hooks/fee/src/lib.rs","contracts/hooks/routing/src/lib.rs","contracts/hooks/routing-custom/src/lib.rs","contracts/hooks/routing-fallback/src/lib.rs","contracts/igps/core/src/execute.rs","contracts/igps/core/src/query.rs"],
 [("quote composition",MB+"query.rs quote_dispatch"),("fund forwarding","contracts/hooks/*/src/lib.rs post_dispatch"),("payment check","contracts/igps/core/src/execute.rs pay_for_gas")],
 ["query mailbox hook.quote_dispatch","the dispatch that follows"])
p("C09","The gas paymaster keeps exactly its quote and refunds the rest",
 "A gas payment (direct or on post-dispatch) is accepted only if the attached gas tokens cover the current quote for that destination and gas amount; the paymaster then keeps exactly the quote and sends the whole excess to the refund address - the one given by the caller or by the dispatch metadata, otherwise the message's sender. Payments in any other denomination are refused. Collected gas tokens leave only by a claim of the current beneficiary, which receives the full balance.",
 ["inputs","histories","schedules","configurations"],
 "all payment amounts (short, exact, surplus, near the numeric limits), refund addresses of every encoding, gas limits and prices, and interleavings with configuration changes and claims",
 "Tests use one oracle price and a few amounts with mocked bank effects; balances over a history, odd refund addresses and price changes between quote and payment are never combined.",
 ["contracts/igps/core/src/execute.rs","contracts/igps/core/src/query.rs",IF+"types/metadata.rs"],
 [("payment and refund","contracts/igps/core/src/execute.rs pay_for_gas"),("refund address choice",IF+"types/metadata.rs get_refund_address"),("claim","contracts/igps/core/src/execute.rs claim")],
 ["bank transfers caused by pay_for_gas, post_dispatch and claim","paymaster bank balance"])
p("C10","Gas quotes follow the latest configured oracle, price, rate and gas amount",
 "A gas quote for a destination equals floor(gas x gas price x exchange rate / 10^10) using the data most recently set for that destination at the oracle most recently routed for it; a dispatch quote takes its gas from the metadata when it carries a gas limit and otherwise from the gas most recently set for that destination, or the current default if none is set. Destinations without an oracle or data have no quote, and an exchange rate of zero is never accepted into the oracle. Setting, replacing or unsetting one destination's entry never affects another's.",
 ["histories","inputs","configurations"],
 "every history of oracle, route, default-gas and per-domain updates (single and batched) followed by quotes for any destination, with values up to the numeric limits",
 "Tests look at one or two entries after one write; batches, overwrites, unsets, boundary domains and products near the 256-bit limit are not explored.",
 ["contracts/igps/core/src/query.rs","contracts/igps/core/src/execute.rs","contracts/igps/core/src/lib.rs","contracts/igps/oracle/src/contract.rs","contracts/igps/oracle/src/state.rs","packages/router/src/lib.rs"],
 [("quote formula","contracts/igps/core/src/query.rs quote_gas_price"),("default/custom gas","contracts/igps/core/src/lib.rs get_default_gas"),("oracle data","contracts/igps/oracle/src/contract.rs")],
 ["queries igp.quote_gas_payment, igp.gas_for_domain, oracle.get_exchange_rate_and_gas_price, hook.quote_dispatch"])
W="contracts/warp/"
p("C11","Warp routes conserve tokens across chains",
 "For every warp route connecting chains, the tokens locked in the collateral contract always equal the bridged supply outstanding on the other chains plus the transfers dispatched but not yet delivered, at every point of any history. A transfer takes exactly the stated amount from the sender (locking collateral or burning bridged tokens) and a delivery gives exactly that amount to the encoded recipient (releasing collateral or minting), once. A transfer or delivery that fails changes no balance or supply.",
 ["schedules","fault_sequences","histories","inputs"],
 "native and cw20 routes, collateral and bridged sides, any amounts up to the numeric limits and any recipient encodings, under message loss, duplication, reordering, failed deliveries, retries and crashes",
 "Warp tests check the messages one contract returns for one call; no test connects two routes, so conservation over histories of transfers, failures and retries is never observed.",
 [W+"native/src/contract.rs",W+"cw20/src/contract.rs",IF+"warp/native.rs",IF+"warp/cw20.rs","packages/interface/src/types/message.rs"],
 [("transfer_remote lock or burn","contracts/warp/*/src/contract.rs transfer_remote"),("mint or release on delivery","contracts/warp/*/src/contract.rs mailbox_handle"),("amount and recipient encoding","packages/interface/src/warp")],
 ["bank and cw20 balances and supplies on all chains","in-flight messages"])
p("C12","Warp routes mint or release only for their mailbox and the enrolled remote route",
 "A warp route mints or releases tokens only while handling a delivery made by its own mailbox whose origin domain has an enrolled route and whose sender is exactly that enrolled route; every other caller, origin or sender is refused without effect. An outgoing transfer is dispatched only to a domain with an enrolled route, addressed to exactly that route, through the configured mailbox and hook, with only the funds the sender attached beyond the transferred amount.",
 ["inputs","histories","schedules","configurations"],
 "any callers, any origin/sender/body, route sets changing (set, replaced, unset) while messages are in flight, and any attached funds",
 "Tests try one or two wrong senders on a fixed route table; they do not rotate routes under in-flight messages or forge deliveries through a real mailbox.",
 [W+"native/src/contract.rs",W+"cw20/src/contract.rs","packages/router/src/lib.rs","packages/connection/src/lib.rs"],
 [("mailbox and route checks","contracts/warp/*/src/contract.rs mailbox_handle"),("route lookup","packages/router/src/lib.rs get_route / is_router")],
 ["handle calls to warp routes and their token effects","dispatch calls made by warp routes"])
ALL=["packages/ownable/src/lib.rs"]
p("C13","Ownership moves only by the two-step handover",
 "In every ownable contract the owner changes only when the account most recently nominated by the then-current owner, whose nomination has not been revoked, claims it; the nomination is then cleared. Only the owner can nominate (and only while nothing is pending) or revoke, nominating never changes the owner, and owner and pending-owner queries always reflect exactly this history. From the claim on, the new owner and only the new owner has the owner's powers.",
 ["histories","schedules","fault_sequences"],
 "every interleaving of nominate, revoke and claim by owners, nominees, former owners and outsiders on every ownable contract, with aborted transactions",
 "The tests of the shared package check single calls; interleavings (claim after revoke, re-nomination, former nominees, self-nomination) and each contract's wiring are not covered.",
 ["packages/ownable/src/lib.rs","contracts/core/mailbox/src/contract.rs","contracts/igps/oracle/src/contract.rs"],
 [("two-step handover","packages/ownable/src/lib.rs"),("wiring in each contract","contracts/*/*/src (Ownable arm of execute)")],
 ["queries ownable.get_owner / get_pending_owner","ownable calls and their outcome"],
 [("OWNER / PENDING_OWNER","current owner and nominee","packages/ownable/src/lib.rs")])
p("C14","Configuration changes only by the owner",
 "Every configuration of every contract - default and required hooks, default ISM, validator sets, ISM and hook lists, routes, custom and fallback hooks, oracle data, gas settings, beneficiary, fee, pause state, connections - changes only through a committed call by that contract's owner at that moment; the same call by anyone else is refused and leaves every observable setting as it was. An owner's accepted change is exactly what the queries report and the contract uses afterwards, and nothing else is changed by it.",
 ["histories","inputs","schedules"],
 "all configuration entry points of all contracts, called by owners, pending owners, former owners, other contracts and outsiders in any order, with ownership changing hands in between",
 "Tests sample one unauthorized caller for some entry points; they do not cover every entry point, callers whose role just changed, or calls arriving through other contracts.",
 [MB+"execute.rs","contracts/isms/multisig/src/contract.rs","contracts/isms/aggregate/src/lib.rs","contracts/isms/routing/src/contract.rs","contracts/hooks/fee/src/lib.rs","contracts/hooks/aggregate/src/lib.rs","contracts/hooks/routing-custom/src/lib.rs","contracts/hooks/routing-fallback/src/lib.rs","contracts/igps/core/src/execute.rs","contracts/igps/oracle/src/contract.rs","packages/router/src/lib.rs","packages/connection/src/lib.rs","packages/pausable/src/lib.rs"],
 [("owner check in each setter","contracts/*/*/src/*.rs and packages/{router,connection,pausable}/src/lib.rs")],
 ["outcome of every configuration call","all configuration queries"])
p("C15","Pause stops, release resumes, nothing else",
 "While a pausable hook is paused no dispatch that reaches it commits, and while a pausable ISM is paused no message that depends on it is delivered; when not paused neither refuses anything. The state flips only by the owner's pause (when not paused) and release (when paused), is what pause_info reports, and a message refused because of a pause is deliverable again after release.",
 ["histories","schedules","fault_sequences"],
 "any interleaving of pause and release with dispatches and deliveries through direct, aggregate and routed compositions",
 "Tests flip the flag once on an isolated contract; no test pauses under traffic or checks recovery through the mailbox.",
 ["packages/pausable/src/lib.rs","contracts/hooks/pausable/src/lib.rs","contracts/isms/pausable/src/lib.rs"],
 [("pause state machine","packages/pausable/src/lib.rs"),("gates","contracts/{hooks,isms}/pausable/src/lib.rs")],
 ["post_dispatch and verify outcomes","query pausable.pause_info"])
p("C16","The routing ISM defers to exactly the module set for the message's origin",
 "The routing ISM's verify, verify_info and route answers for a message are those of the module most recently set (at instantiation or by the owner) for that message's origin domain, asked with the same metadata and message. A message from an origin with no module, or whose module was unset, is never verified. Setting or unsetting one origin never changes another's module.",
 ["histories","inputs","configurations","schedules"],
 "every history of set/unset (single and list) over any domains, and messages from any origin, including changes while messages are in flight",
 "Tests route one or two fixed domains to mocks, and ask verify_info of no real module.",
 ["contracts/isms/routing/src/contract.rs","contracts/isms/routing/src/state.rs"],
 [("module lookup by origin","contracts/isms/routing/src/contract.rs query")],
 ["queries ism.verify / ism.verify_info / routing_ism.route"])
p("C17","The aggregate ISM accepts only when enough of its modules do",
 "The aggregate ISM reports verified only if at least its configured threshold of distinct member ISMs each verify the message with the metadata slice assigned to that member; with well-formed metadata and enough members accepting (and none failing outright) it does report verified. The threshold is always at least one and at most the number of members, both at creation and after every update. Members and threshold are those most recently set, and queries report exactly those.",
 ["inputs","histories","configurations"],
 "any member lists, thresholds, member verdicts, metadata slicings (shared, overlapping, empty, out of range), nested aggregates and configuration histories",
 "Tests use three mock members and a fixed metadata layout; thresholds at creation, nesting, partial acceptance and ranges are not explored.",
 ["contracts/isms/aggregate/src/lib.rs",IF+"types/metadata.rs"],
 [("threshold counting","contracts/isms/aggregate/src/lib.rs verify"),("metadata slicing",IF+"types/metadata.rs AggregateMetadata::from_hex")],
 ["query ism.verify and the member queries it makes","query aggregate_ism.isms"])
p("C18","Routing hooks send each message to exactly the hook configured for it",
 "A routing hook forwards post_dispatch (message, metadata and all attached funds) and quotes to exactly the hook configured for the message's destination; the custom variant prefers the hook registered for the exact destination and recipient and otherwise behaves like the plain one; the fallback variant uses the fallback hook when the destination has no route. With no applicable hook the dispatch fails. Quote and post_dispatch always choose the same hook, and routing hooks never retain funds.",
 ["histories","inputs","configurations","schedules"],
 "any history of route, custom and fallback changes over any domains and recipients, and any messages, metadata and funds",
 "Tests route with empty funds to mocks; custom-versus-route precedence after clears, several recipients per domain and forwarded funds are not exercised.",
 ["contracts/hooks/routing/src/lib.rs","contracts/hooks/routing-custom/src/lib.rs","contracts/hooks/routing-fallback/src/lib.rs","packages/router/src/lib.rs"],
 [("route selection and forwarding","contracts/hooks/routing*/src/lib.rs post_dispatch / quote_dispatch")],
 ["post_dispatch calls and funds","query hook.quote_dispatch","queries custom_routing_hook / fallback_routing_hook"])
p("C19","The aggregate hook runs every configured hook once and pays each its quote",
 "A committed post_dispatch on an aggregate hook calls post_dispatch exactly once on each configured hook, in the configured order, with the same message and metadata and exactly the fees that hook quotes; its own quote is the per-denomination sum of theirs. The configured list is the one most recently set by the owner.",
 ["configurations","inputs","histories"],
 "any hook lists (empty, long, with repeats, nested), fees in several denominations and list changes between quote and dispatch",
 "Tests use mocks with one denomination and never execute the sub-calls.",
 ["contracts/hooks/aggregate/src/lib.rs",IF+"hook/mod.rs"],
 [("fan-out with quoted fees","contracts/hooks/aggregate/src/lib.rs post_dispatch / quote_dispatch")],
 ["post_dispatch calls and funds","query hook.quote_dispatch and aggregate_hook.hooks"])
p("C20","The fee hook charges its fee and only its owner collects",
 "A post_dispatch on a fee hook commits only if it carries at least the fee currently set, in the fee's denomination and no other; a smaller amount or another denomination is refused, carrying exactly the fee is enough, and that fee is what the hook quotes. Everything paid stays in the hook until its owner claims it, and a claim sends the whole balance to the recipient the owner names (or to the owner).",
 ["inputs","histories","schedules"],
 "any fees including zero, any attached funds, fee changes racing with dispatches, and claims by anyone",
 "Tests check one payment and one claim with mocked balances.",
 ["contracts/hooks/fee/src/lib.rs"],
 [("fee check, claim","contracts/hooks/fee/src/lib.rs")],
 ["post_dispatch outcomes, bank transfers, queries fee_hook.fee and hook.quote_dispatch"])
p("C21","Registries read back exactly what was written, page by page",
 "Every domain-keyed registry (router routes in hooks, paymaster and warp routes; per-domain gas; custom hooks) is a map: a lookup returns the value most recently written for exactly that key, and listing with any limit, offset and order and concatenating pages yields each live entry exactly once, in numeric key order. A limit above the maximum is refused, and pages never exceed the requested (or default) size.",
 ["histories","inputs"],
 "any sequence of single and batched writes, overwrites and removals over any keys (including 0, 2^32-1 and byte-order-sensitive neighbours), and any paging parameters",
 "Tests list a few small ascending keys once; multi-page walks, descending order, overwrites, cleared entries and extreme keys are not covered.",
 ["packages/router/src/lib.rs",IF+"lib.rs","contracts/igps/core/src/query.rs","contracts/hooks/routing-custom/src/lib.rs"],
 [("range/limit/order helper",IF+"lib.rs range_option"),("registry storage","packages/router/src/lib.rs")],
 ["queries router.get_route / list_routes / domains, igp.list_gas_for_domains, custom_routing_hook.custom_hooks"])
p("C22","Announcements are recorded only with that validator's own signature, once each",
 "A storage location is recorded for a validator only if the announcement carries that validator's signature over this mailbox's domain and address and exactly that location, and each (validator, location) pair is accepted at most once. Accepted locations are kept in announcement order under the right validator, existing ones are never lost or altered, and the list of announced validators holds exactly the validators with a location. A correctly signed new announcement is always accepted, whoever submits it.",
 ["inputs","histories","schedules"],
 "any validators, locations (empty, long, near-duplicates), signatures (own, foreign, corrupted, for another domain or mailbox), submitters, and replays in any order",
 "Tests announce recorded signatures once or twice for one validator; replay after other announcements, cross-domain signatures and several validators are not combined.",
 ["contracts/core/va/src/contract.rs","contracts/core/va/src/state.rs"],
 [("replay protection and signature check","contracts/core/va/src/contract.rs announce")],
 ["announce outcomes, queries get_announce_storage_locations / get_announced_validators"])
p("C23","Upgrades keep all state and move only forward",
 "Migrating any contract succeeds only from a strictly older stored version of the same contract, after which the stored version is the new one; otherwise it is refused. A migration, at any point of a deployment's history, changes no other observable state, and every contract behaves after it exactly as it would have without it.",
 ["histories","crash_points","configurations"],
 "migrations injected at arbitrary points of a running deployment, from older, equal, newer, pre-release and foreign versions, for every contract",
 "One test of the helper runs three version strings on an empty store; no contract is migrated with state in it or under traffic.",
 ["packages/utils/src/lib.rs","contracts/core/mailbox/src/contract.rs","contracts/warp/native/src/contract.rs"],
 [("version gate","packages/utils/src/lib.rs migrate"),("migrate entry points","contracts/*/*/src")],
 ["migrate outcomes, contract state and queries before and after"])
p("C24","Once faults stop, every honest message gets through",
 "After any history of faults, once faults stop and configuration is consistent (gates open, validators honest and available, routes enrolled), every message dispatched to a healthy recipient and not yet delivered is delivered by an honest relayer within a bounded number of attempts - whatever was dropped, failed, front-run or half-done before. Attackers, failed attempts and earlier faults never leave a message, a transfer or the mailbox permanently stuck.",
 ["fault_sequences","schedules","crash_points","histories"],
 "all fault and attack histories of the simulation, followed by a quiet period with one honest relayer sweeping each backlog at most a fixed number of times",
 "Tests never reach a state after faults; nothing in the suite relays a backlog.",
 [MB+"execute.rs","contracts/isms/multisig/src/query.rs","contracts/hooks/merkle/src/lib.rs",W+"native/src/contract.rs",W+"cw20/src/contract.rs"],
 [("failed attempts roll back",MB+"execute.rs process"),("order-independent delivery",MB+"state.rs DELIVERIES")],
 ["message_delivered at the end of the quiet period","recipient and token effects"])
p("C25","Wire encodings round-trip",
 "Encoding then decoding a message, gas metadata, multisig metadata, aggregate metadata or token-transfer body returns the original for every value representable on the wire. Address conversion between bech32 text and 32-byte form is the identity for every 20- and 32-byte account.",
 ["inputs"],
 "all values of the wire types",
 "Tests encode a few recorded values.",
 [IF+"types/message.rs",IF+"types/metadata.rs",IF+"types/bech32.rs",IF+"warp/mod.rs"],
 [("codecs",IF+"types")],
 ["library functions"])
p("C26","Events tell off-chain agents exactly what happened",
 "Relayers, validators and indexers act on events alone. Each committed dispatch announces once its message and id; each committed delivery announces once the origin, sender, recipient and id of that message; each insertion into the merkle tree announces once that message's id with the leaf index it really got; each gas payment announces once payer, message, domain, gas amount, the charge, the amount paid and the refund; each accepted announcement announces validator and location; each claim the amount collected; each token transfer and receipt its account, token and amount. No other call, and no rolled-back one, emits any of these events.",
 ["histories","inputs","fault_sequences"],
 "any history of dispatches, deliveries, payments, announcements and transfers, including batches in one transaction, nested calls, failed attempts and repeated contents",
 "Tests compare events of single calls from a fresh state with fixed values; indices after many insertions, nested calls, refunds and rolled-back calls are not covered.",
 [MB+"event.rs",MB+"execute.rs","contracts/hooks/merkle/src/lib.rs","contracts/igps/core/src/event.rs","contracts/core/va/src/contract.rs",W+"native/src/contract.rs",W+"cw20/src/contract.rs"],
 [("events of dispatch and process",MB+"event.rs"),("leaf index event","contracts/hooks/merkle/src/lib.rs post_dispatch"),("gas payment event","contracts/igps/core/src/execute.rs pay_for_gas")],
 ["events mailbox_dispatch(_id), mailbox_process(_id), hpl_hook_merkle::*, igp-core-pay-for-gas, igp-core-claim, validator-announcement, *::handle, *::transfer-remote"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
