"""The properties: single source for properties.jsonl and MANIFEST.json
(gen.py writes both) and for the check runner."""

P = []


def prop(id, bin, prefix, title, statement, over, quant, why, files, mech, bounds, outside, assumptions=(), observe=()):
    P.append(dict(id=id, bin=bin, prefix=prefix, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, bounds=bounds, outside=outside, assumptions=list(assumptions), observe=list(observe)))


MB = "contracts/core/mailbox/src/"
IF = "packages/interface/src/"

prop("M01", "mailbox", "m01", "Dispatch assigns consecutive nonces and announces the id of the exact message",
     "Every successful dispatch consumes exactly one nonce, starting from zero and never wrapping, and its message id is the keccak-256 of the 77-byte-header wire encoding of (version 3, nonce, local domain, 32-byte left-padded sender, destination, recipient, body). The response, the latest-dispatched-id query, the events and the calls to the required and the chosen hook all carry that same message, in that order. A rejected dispatch (recipient not 32 bytes, failing hook, exhausted nonce) changes nothing.",
     ["inputs", "histories"], "all senders (20/32 bytes), recipients, destinations, bodies and metadata within the length bounds, all local domains, every starting nonce, histories of dispatches with failures",
     "Existing tests dispatch a few fixed messages from nonce zero; the encoding and nonce arithmetic must be right for every field value and every nonce including 2^32-1.",
     [MB + "execute.rs", MB + "contract.rs", IF + "types/message.rs", IF + "types/bech32.rs", IF + "core/mailbox.rs"],
     [("nonce increment and latest id store", MB + "execute.rs dispatch"), ("wire encoding", IF + "types/message.rs")],
     "one dispatch from an arbitrary 32-bit nonce (body 0, 1 or 5 bytes, or 5000 bytes of which 4 are arbitrary, metadata absent or 3 bytes, hook default or any 5-letter address, 2 address prefixes); histories of 3 dispatches with failing hooks (thorough: 6); rejected recipient lengths 0, 1, 20, 31, 33, 64",
     "longer bodies, longer histories")
prop("M02", "mailbox", "m02", "A message is delivered at most once over any history",
     "Over any sequence of delivery attempts, dispatches and owner reconfigurations, with any metadata, relayer and security-module answers, each message (each id) is handed to its recipient at most once. The delivered query is true exactly for the ids that were handed over, and a fresh message that its security module accepts is always deliverable, whatever happened before.",
     ["histories", "inputs"], "all interleavings of process attempts on two arbitrary (possibly equal) messages, dispatches and owner actions, with every verification outcome",
     "Tests replay one fixed message twice; the guarantee quantifies over histories and over all pairs of messages.",
     [MB + "execute.rs", MB + "query.rs", MB + "state.rs"], [("delivery record checked and written before verification", MB + "execute.rs process")],
     "histories of 3 operations over two well-formed messages with arbitrary nonce and sender; one delivery followed by an arbitrary replay attempt (thorough: 4 operations; 3 attempts on two arbitrary 78-byte messages)",
     "longer histories, more than two messages")
prop("M03", "mailbox", "m03", "Only authentic messages for this chain reach the recipient, and intact",
     "A delivery succeeds exactly when the message has protocol version 3, names the local domain, and the security module chosen by the recipient (or the default one when the recipient names none) accepts exactly the submitted metadata and message. It then produces exactly one call, to the recipient encoded in the message, without funds, carrying the true origin, sender and body; otherwise nothing happens.",
     ["inputs", "configurations"], "all message bytes, metadata, domains, recipient module choices and module answers (accept, reject, fail)",
     "Tests use valid fixtures with one field altered; the iff over every byte of the message is out of their reach.",
     [MB + "execute.rs", IF + "ism/mod.rs", IF + "types/message.rs", IF + "types/bech32.rs"],
     [("version, domain and ISM checks", MB + "execute.rs process"), ("recipient / verify queries", IF + "ism/mod.rs")],
     "one delivery attempt on an arbitrary message of 77, 78 or 81 bytes, or with a 5000-byte body of which 4 bytes are arbitrary, by any 5-letter relayer (the owner included), where the recipient may be its own module, metadata 0 to 3 bytes, 2 address prefixes; truncated messages of 8 lengths below 77",
     "longer bodies and metadata")
prop("M04", "mailbox", "m04", "Dispatch pays the required hook its quote and forwards all remaining funds",
     "A dispatch succeeds exactly when the attached funds cover the required hook's quote in every denomination. The required hook then receives exactly its quote and the hook chosen by the sender (or the default) receives everything else, so that no coin is kept, lost or created.",
     ["inputs"], "all 128-bit amounts, attached and quoted coin sets over several denominations",
     "Tests use one denomination and a handful of amounts.",
     [MB + "execute.rs"], [("fee subtraction and post-dispatch funds", MB + "execute.rs dispatch")],
     "up to 2 denominations attached and quoted (thorough: a third, disjoint one), any 128-bit amounts, default or explicit hook",
     "more denominations, quotes that repeat a denomination")
prop("M05", "mailbox", "m05", "The mailbox quote is exact: paying exactly it suffices",
     "The dispatch quote equals, per denomination, the required hook's fee plus the fee of the hook that the dispatch would use, asked for the very message and metadata that would be dispatched. Dispatching with exactly the quoted funds succeeds and gives each hook exactly its own fee.",
     ["inputs"], "all fee amounts and coin sets, senders, destinations, bodies, metadata",
     "Tests compare quotes for a few fixed mock fees.",
     [MB + "query.rs", MB + "execute.rs", IF + "hook/mod.rs"], [("quote aggregation", MB + "query.rs quote_dispatch")],
     "up to 2 denominations per hook (thorough: a third), any 128-bit amounts; arbitrary message with 1-byte body and 2-byte metadata",
     "more denominations")
prop("M06", "mailbox", "m06", "Mailbox configuration changes only by its owner and is reported faithfully",
     "The default security module, default hook and required hook change only through the owner and only to valid addresses, each independently of the others. Configuration queries always report the last accepted value; the local domain and address prefix never change.",
     ["histories", "inputs"], "all sequences of setter calls by owner and strangers with arbitrary addresses",
     "Tests call each setter once.",
     [MB + "execute.rs", MB + "query.rs"], [("owner check and config update", MB + "execute.rs")],
     "histories of 2 setter calls (thorough: 3), any 4-letter addresses, any 5-letter callers", "longer histories")

IS = "contracts/isms/"
prop("I01", "isms", "i01", "Multisig ISM accepts iff threshold many distinct validators signed this message",
     "A multisig module accepts a message exactly when the metadata carries valid secp256k1 signatures of at least threshold many distinct validators enrolled for the message's origin domain, over the checkpoint digest of that origin, merkle tree, root, index and message id. Repeated signatures, signatures of validators of other domains, incomplete or malformed metadata and domains without validators never count. Verify info names exactly the enrolled validators and threshold of the message's origin.",
     ["inputs", "configurations"], "all messages, metadata bytes, signatures (any recovery outcome), validator sets (repeated addresses included) and thresholds within the shapes",
     "Tests verify one fixture with one validator; which subsets of signatures suffice, and that nothing else does, ranges over all keys and signatures.",
     [IS + "multisig/src/query.rs", IS + "multisig/src/lib.rs", IF + "types/crypto.rs", IF + "types/metadata.rs"],
     [("signature counting", IS + "multisig/src/query.rs"), ("metadata parsing", IF + "types/metadata.rs")],
     "1 to 3 enrolled validators and 0 to 3 signatures, six shapes up to 3x3 (thorough: also 2x3, 1x5, 2x4), any threshold, any recovery byte, 0 or 64 trailing bytes; metadata lengths 0, 31, 64, 67, 68, 132 with message lengths 0, 40, 76, 77; two enrolled domains and an arbitrary origin",
     "more validators or signatures",
     ["public key recovery is an arbitrary fixed function of (digest, signature, recovery id); it fails only for recovery ids above 1"])
prop("I02", "isms", "i02", "Multisig validator sets change only by the owner, domain by domain",
     "Only the owner enrolls or removes the validators of a domain, and an accepted enrollment has 20-byte validator addresses and a threshold between one and their number. Every query reports exactly what was last set, and changing one domain never affects another.",
     ["histories", "inputs"], "all sequences of enrollments and removals by owner and strangers with arbitrary sets and thresholds",
     "Tests enroll once or twice with valid values.",
     [IS + "multisig/src/contract.rs", IS + "multisig/src/state.rs"], [("set_validators / unset_domain", IS + "multisig/src/contract.rs")],
     "histories of 2 operations with up to 2 validators on one arbitrary domain (thorough: 3 operations or 3 validators), three arbitrary domains for independence; sets of 9, 40, 255, 256 and 258 validators with any threshold", "longer histories, larger sets")
prop("I03", "isms", "i03", "Aggregate ISM accepts iff threshold many modules accept, each on its own segment",
     "An aggregate module accepts exactly when at least threshold many of its distinct modules accept. Each module is asked about exactly the submitted message with exactly the metadata bytes that the range header designates for it, and no other contract is ever asked. Malformed range headers never lead to acceptance beyond what the modules granted.",
     ["inputs", "configurations"], "all module addresses and orders, thresholds, payload bytes, messages and module answers (accept, refuse, fail)",
     "Tests use one or two mock modules that accept.",
     [IS + "aggregate/src/lib.rs", IF + "types/metadata.rs"], [("per-module verification and counting", IS + "aggregate/src/lib.rs"), ("range header", IF + "types/metadata.rs")],
     "1 to 3 modules (thorough: 4) with arbitrary 3-letter addresses, one payload byte each; a module listed twice among 2 or 3; two modules with any combination of 7 range shapes (empty, reversed, overflowing, overlapping the header, out of bounds) over 4 metadata lengths; 12 modules of which any number of the first or of the last accept", "more modules, longer segments")
prop("I04", "isms", "i04", "Aggregate modules change only by the owner and keep a meaningful threshold",
     "Whether set at instantiation or replaced later, an accepted configuration has valid module addresses and a threshold between one and the number of modules, so that no message verifies without any module accepting it. Only the owner replaces it, and queries report what was last set.",
     ["histories", "inputs"], "all initial configurations and replacement sequences by owner and strangers",
     "Tests instantiate with one valid configuration; thresholds at the edges are not sampled.",
     [IS + "aggregate/src/lib.rs"], [("threshold validation", IS + "aggregate/src/lib.rs")],
     "0 to 3 modules, any 8-bit threshold; histories of 1 replacement (thorough: 2); sets of 9, 40, 255, 256 and 258 modules with any threshold", "longer histories")
prop("I05", "isms", "i05", "Routing ISM delegates to exactly the module of the message's origin",
     "A routing module answers verify, route and verify-info queries with exactly the answer of the module set for the message's origin domain, asked about the same metadata and message, and fails for origins without a module. Routes change only through the owner, one domain never affecting another, and queries report the routes last set.",
     ["inputs", "histories"], "all origins, domains, module addresses, messages, metadata and module answers; histories of route changes by owner and strangers",
     "Tests ask one route of a fixed table.",
     [IS + "routing/src/contract.rs"], [("route lookup and delegation", IS + "routing/src/contract.rs")],
     "two arbitrary distinct domains with arbitrary 4-letter modules and an arbitrary origin; histories of 2 route changes (thorough: 3)", "larger tables")
prop("I06", "isms", "i06", "Pausable ISM verifies exactly while not paused, and only its owner pauses it",
     "A pausable module accepts every message while not paused and none while paused. The pause state changes only through its owner, who can always change it, and is reported faithfully.",
     ["histories", "inputs"], "all sequences of pause and release by owner and strangers from either initial state, all messages and metadata",
     "Tests flip the state once.", [IS + "pausable/src/lib.rs", "packages/pausable/src/lib.rs"], [("pause gate", IS + "pausable/src/lib.rs")],
     "histories of 2 operations (thorough: 4); 1-byte metadata, 3-byte messages", "longer histories")
KM = "contracts/hooks/merkle/src/"
prop("K01", "merkle", "k01", "Merkle hook queries always describe the tree of the dispatched ids, in order",
     "After any sequence of dispatches the merkle hook's tree contains exactly the ids the mailbox dispatched, in order, each once per call. Root, count, branch and checkpoint queries and the emitted events are those of the depth-32 keccak merkle tree of these ids; the checkpoint index is that of the last leaf, and an empty tree has no checkpoint.",
     ["histories", "inputs"], "all sequences of arbitrary message ids, with failing calls in between",
     "Tests check a few fixed vectors.", [KM + "lib.rs", IF + "types/merkle.rs"], [("insertion and events", KM + "lib.rs"), ("tree", IF + "types/merkle.rs")],
     "histories of up to 4 calls with arbitrary ids (thorough: 6) compared against a naively built tree", "longer histories (single insertions at larger sizes: K03)")
prop("K02", "merkle", "k02", "Merkle hook records only what the mailbox says it dispatched, at no cost",
     "Whoever calls the merkle hook, with whatever message, the tree only ever grows by an id that the mailbox reports as its latest dispatch and that is the id of the submitted message; every other call changes nothing. The hook asks for no fee.",
     ["inputs"], "all callers, messages and mailbox answers", "Tests cover one authorized and one unauthorized call.",
     [KM + "lib.rs"], [("latest-dispatch check", KM + "lib.rs")], "one earlier leaf, then one call by an arbitrary caller with an arbitrary 78-byte message while the mailbox reports an arbitrary latest id", "longer messages")
prop("K03", "merkle", "k03", "Merkle insertion is right for every tree size, and proofs verify",
     "Inserting a leaf into a tree of any size yields the root of the depth-32 tree with that leaf appended, for arbitrary existing contents, and a full tree refuses further leaves unchanged. The branch-root computation accepts a proof of each leaf at its index and no two leaves share one index.",
     ["inputs", "histories"], "all tree contents and leaves at boundary sizes up to 2^32-1, all proofs",
     "Tests insert a handful of leaves; sizes near powers of two and the limit are out of reach by insertion.",
     [IF + "types/merkle.rs", "packages/interface/src/types/merkle.rs"], [("insert / root / branch root", IF + "types/merkle.rs")],
     "one insertion at selected sizes around powers of two up to 2^32-2 with arbitrary subtree contents (thorough: 48 sizes), refusals at and beyond the limit; proofs of every leaf in trees of 1 to 4 leaves (thorough: 5 to 12); the hook with 13 sizes up to 2^32-1 leaves and one more dispatch", "other sizes")
VA = "contracts/core/va/src/"
prop("V01", "va", "v01", "Announcements need the validator's own signature for this mailbox",
     "A storage location is recorded for a validator exactly when the signature recovers that validator over the announcement digest of the local domain, this mailbox and that very location, wrapped as a signed Ethereum message. Signatures made for another domain, mailbox or location, malformed signatures and validators that are not 20 bytes long are refused and change nothing.",
     ["inputs"], "all validators, signatures, recovery bytes, locations, mailbox addresses and domains",
     "Tests use one recorded signature.", [VA + "contract.rs", VA + "lib.rs", "packages/interface/src/types/crypto.rs"], [("digest and recovery", VA + "contract.rs")],
     "locations of 0, 1 and 5 bytes (thorough: 40 to 137 bytes), mailbox addresses of 20 or 32 bytes; validator and signature lengths around the valid ones; 3-letter signed locations for other domains and mailboxes", "other lengths",
     ["public key recovery is an arbitrary fixed function of (digest, signature, recovery id); it fails only for recovery ids above 1"])
prop("V02", "va", "v02", "Announced locations are recorded once, in order, and never lost",
     "Over any history each validator's locations are reported exactly as announced, in order, without duplicates, independently of other validators; announcing a location twice is refused. The announced-validators query lists exactly the validators with an announcement, and location queries answer for every validator asked, in the order asked.",
     ["histories", "inputs"], "all sequences of announcements by arbitrary validators of arbitrary locations, replays included",
     "Tests announce twice.", [VA + "contract.rs", VA + "state.rs"], [("replay protection and storage", VA + "contract.rs")],
     "histories of 2 announcements over 2 validators and arbitrary 2- or 3-character locations (thorough: 3); 12 locations of one validator and 12 validators", "longer histories, more validators",
     ["public key recovery is an arbitrary fixed function of (digest, signature, recovery id); it fails only for recovery ids above 1"])

IG = "contracts/igps/"
prop("G01", "igp", "g01", "Gas quotes are exact for the destination's oracle and the gas that applies",
     "The gas payment quote is gas times gas price times exchange rate divided by 10^10, rounded down, with the data of the oracle set for the destination; it never wraps around, and there is none when it does not fit or the destination has no oracle. A dispatch is quoted for the gas limit in its metadata or else for the gas configured for the destination or else the default, as one coin of the gas token, and as no coin when nothing is owed.",
     ["inputs", "configurations"], "all gas amounts (256 bits), oracle data, destinations, metadata and gas configurations",
     "Tests quote small fixed numbers; rounding, overflow at 128 and 256 bits and the precedence of metadata are not settled by samples.",
     [IG + "core/src/query.rs", IG + "core/src/lib.rs", "packages/interface/src/types/metadata.rs", "packages/interface/src/igp/oracle.rs"],
     [("quote arithmetic", IG + "core/src/query.rs"), ("metadata layout", IF + "types/metadata.rs")],
     "48-bit gas, 32-bit prices, 40-bit rates over two routed destinations; any 256-bit gas with 4 price/rate pairs up to 2^128-1; dispatch quotes for 3 price/rate pairs, metadata of 0, 31, 32 and 52 bytes (thorough: 1, 20, 33, 63, 64, 96) with 48-bit gas limits", "products of larger arbitrary prices and rates")
prop("G02", "igp", "g02", "Gas payments are accepted iff sufficient, and the exact excess is refunded",
     "A payment, direct or through a dispatch, is accepted exactly when the gas token alone is attached and covers the quote, or when nothing is attached and nothing is owed. The exact excess goes back to the refund address and nothing else leaves: the address in the metadata when present, else the message's sender, 32-byte forms of 20-byte addresses included. Paying exactly what was quoted always suffices.",
     ["inputs"], "all amounts, coin sets, prices, rates, metadata, refund addresses, senders and payers",
     "Tests pay a few fixed amounts; the equality of attached, owed and refunded amounts is over all values.",
     [IG + "core/src/execute.rs", IG + "core/src/query.rs", "packages/interface/src/types/metadata.rs", IF + "types/bech32.rs"],
     [("payment check and refund", IG + "core/src/execute.rs"), ("refund address", IG + "core/src/execute.rs post_dispatch")],
     "64-bit gas and payments with 4 price/rate pairs (thorough: 24-bit gas, 16-bit price, 24-bit rate all symbolic); coin sets of up to two denominations; metadata of 0, 31, 32, 51, 52 and 64 bytes with arbitrary refund addresses, arbitrary 32-byte senders", "other metadata sizes, larger amounts")
prop("G03", "igp", "g03", "Paymaster settings belong to its owner, its proceeds to its beneficiary",
     "Routes, per-destination gas, default gas and beneficiary change only through the owner; each change affects only what it names, addresses must be valid, and queries report exactly the settings, per-destination gas listings in order after the offset and within the limit. Collecting is for the beneficiary alone and sends it the whole balance of the gas token.",
     ["histories", "inputs"], "all callers, settings, destinations, balances and page requests",
     "Tests run each operation once with a fixed caller.",
     [IG + "core/src/contract.rs", IG + "core/src/execute.rs", IG + "core/src/query.rs", IG + "core/src/state.rs"], [("owner and beneficiary checks", IG + "core/src/execute.rs")],
     "one configuration call by an owner or arbitrary 5-letter caller on a configured paymaster, any two destinations; any 128-bit balance; listings over 3 destinations (thorough: 4) with arbitrary offset", "longer histories, larger listings")
prop("G04", "igp", "g04", "Gas oracle reports the owner's latest data per destination, never a zero rate",
     "Gas data changes only through the oracle's owner, one by one or in batches, and an update with a zero exchange rate is refused as a whole. The answer for each destination is exactly the last accepted data naming it; a destination without data has no answer.",
     ["histories", "inputs"], "all sequences of updates by owner and strangers over arbitrary destinations, prices and rates",
     "Tests set a fixed table once.", [IG + "oracle/src/contract.rs", IG + "oracle/src/state.rs", "packages/interface/src/igp/oracle.rs"], [("updates", IG + "oracle/src/contract.rs")],
     "histories of 2 updates, batches of up to 2 entries (thorough: 3 updates), all 128-bit prices and rates", "longer histories and batches")

WN, WC = "contracts/warp/native/src/", "contracts/warp/cw20/src/"
prop("W01", "warp", "w01", "Warp routes pay out only authentic transfers, the exact amount to the recipient",
     "A warp route (native or cw20) acts on a delivery exactly when it comes from its mailbox and the message's sender is the router enrolled for the message's origin. It then pays exactly the 256-bit amount in the message to the recipient in the message, minting it when bridged and releasing locked tokens when collateral, and nothing else. Amounts beyond 128 bits and truncated messages are refused.",
     ["inputs", "configurations"], "all message bodies, amounts, recipients, origins, senders, callers and enrolled routers",
     "Tests deliver one fixed amount.", [WN + "contract.rs", WN + "conv.rs", WC + "contract.rs", WC + "conv.rs", IF + "warp/mod.rs"],
     [("mailbox_handle", WN + "contract.rs"), ("mailbox_handle", WC + "contract.rs"), ("message layout", IF + "warp/mod.rs")],
     "bodies of 64 bytes (thorough: 67, 97), all 256-bit amounts; two enrolled routers on arbitrary domains, one possibly removed, arbitrary origins and 7-letter callers, router lengths 0, 20, 31, 32, 33; truncated bodies of 6 lengths", "longer bodies, more routers")
prop("W02", "warp", "w02", "Sending through a warp route takes exactly what the message promises",
     "A transfer is accepted only to an enrolled destination, for a 32-byte recipient, fully covered by the sender's tokens. The route takes exactly the amount from the sender, burning it when bridged, and dispatches one message, to the router enrolled for the destination, that carries exactly recipient and amount. All other attached funds, the hook metadata and the chosen hook (else the configured one) go with it.",
     ["inputs", "configurations"], "all amounts, funds, recipients, hooks, metadata, destinations and senders",
     "Tests send one fixed amount; that the remote side is promised exactly what was taken holds for all of them or not at all.",
     [WN + "contract.rs", WN + "conv.rs", WN + "proto.rs", WC + "contract.rs", WC + "conv.rs", IF + "warp/mod.rs", IF + "core/mailbox.rs"],
     [("transfer_remote", WN + "contract.rs"), ("transfer_remote", WC + "contract.rs")],
     "any 128-bit amounts, coin sets of up to two denominations (thorough: three), metadata absent or 1 byte (thorough: 52), recipient lengths 0, 1, 20, 31, 33, 64, 96 besides 32, two destinations with one replaced or removed", "more denominations")
prop("W03", "warp", "w03", "A warp route keeps its own token and only its owner configures it",
     "A bridged route creates its token at instantiation with itself as the minter and adopts exactly the created one; a collateral route uses the given token; afterwards the token, mode and mailbox never change, unexpected replies included. Routers, hook and security module change only through the owner, each independently, and queries report the last value.",
     ["histories", "inputs"], "all callers, replies, routers, domains and addresses", "Tests instantiate and query once.",
     [WN + "contract.rs", WN + "conv.rs", WN + "proto.rs", WC + "contract.rs", "packages/router/src/lib.rs", "packages/connection/src/lib.rs"],
     [("instantiate / reply", WN + "contract.rs"), ("instantiate / reply", WC + "contract.rs"), ("owner checks", "packages/router/src/lib.rs")],
     "one configuration call by an arbitrary 5-letter caller, owner or mailbox on a route with two arbitrary domains; replies with any non-zero id (thorough: histories of 3 route changes); callers include the mailbox, the route itself and every address configured before", "longer histories")
prop("W04", "warp", "w04", "What one warp route takes in, its peer pays out, to the same recipient",
     "For every pair of enrolled routes (native or cw20, bridged or collateral), a transfer accepted on one chain and delivered on the other pays the recipient the sender named exactly the amount that was taken from the sender.",
     ["inputs", "configurations"], "all amounts, recipients, router addresses and domains, all 16 pairs of route kinds",
     "The two contracts are never tested against each other.",
     [WN + "contract.rs", WC + "contract.rs", IF + "warp/mod.rs"], [("message layout", IF + "warp/mod.rs")],
     "one transfer, any 128-bit amount and 32-byte recipient, 2 address prefixes", "sequences of transfers")

HK = "contracts/hooks/"
prop("H01", "hooks", "h01", "Fee hook charges exactly its fee, and only its owner sets and collects it",
     "A dispatch through the fee hook is accepted exactly when the attached funds are of the fee's denomination alone and cover the fee, nothing being needed when the fee is zero; the quote is that fee. The fee changes only through the owner and is reported faithfully; only the owner collects, and everything collected goes to the recipient it names, or to itself.",
     ["inputs", "histories"], "all fees, attached coin sets, callers, recipients and balances", "Tests pay and claim a few fixed amounts.",
     [HK + "fee/src/lib.rs"], [("fee check", HK + "fee/src/lib.rs"), ("claim", HK + "fee/src/lib.rs")],
     "coin sets of up to two denominations with any positive 128-bit amounts; one call by an owner or an arbitrary 5-letter caller (thorough: histories of 4 fee changes)", "more denominations", ["attached coins are positive, as the chain guarantees"])
prop("H02", "hooks", "h02", "Aggregate hook calls every member once and pays each exactly its quote",
     "A dispatch through the aggregate hook calls every member hook exactly once, in order, with the same message and metadata and exactly that member's quote attached; its own quote is the sum of theirs per denomination, and there is none when a member fails or the sum does not fit. Only the owner replaces the members, by valid addresses, and they are reported faithfully.",
     ["inputs", "configurations", "histories"], "all member counts, quotes, messages, metadata, callers", "Tests use one or two mock hooks with fixed fees.",
     [HK + "aggregate/src/lib.rs", IF + "hook/mod.rs"], [("fan-out", HK + "aggregate/src/lib.rs")],
     "0 to 2 members, each quoting nothing or one coin of two denominations, or failing (thorough: 3 members, up to two coins each); histories of 2 member changes", "more members", ["exactly the quote is attached to the dispatch"])
prop("H03", "hooks", "h03", "Routing hooks delegate to exactly the responsible hook, with all funds",
     "A routing hook answers quotes with exactly the quote of the hook responsible for the message, and dispatches through exactly that hook with the same message, metadata and all attached funds. Responsible is the custom hook for destination and recipient if registered, else the hook set for the destination, else the fallback where there is one; without any, quote and dispatch fail.",
     ["inputs", "configurations", "histories"], "all messages, destinations, recipients, routes, funds and quotes, all three routing hooks", "Tests ask fixed routes without funds.",
     [HK + "routing/src/lib.rs", HK + "routing-custom/src/lib.rs", HK + "routing-fallback/src/lib.rs", "packages/router/src/lib.rs"],
     [("route", HK + "routing/src/lib.rs"), ("route", HK + "routing-custom/src/lib.rs"), ("route", HK + "routing-fallback/src/lib.rs")],
     "two arbitrary routed domains (one possibly unset), one arbitrary custom entry, a fallback; any 79-byte message; funds of up to two denominations (thorough: histories of 3 route changes)", "larger tables")
prop("H04", "hooks", "h04", "Routing hook tables change only by the owner and are reported faithfully",
     "Routes, custom hooks and the fallback change only through the owner, custom hooks and the fallback only to valid addresses and custom hooks only for 32-byte recipients; the last change of an entry counts and others are unaffected. Custom hook queries report exactly the registered hooks, listings in order after the offset and within the limit.",
     ["histories", "inputs"], "all callers, domains, recipients and hooks, all histories of registrations and removals", "Tests register and clear fixed entries once.",
     [HK + "routing-custom/src/lib.rs", HK + "routing-fallback/src/lib.rs", HK + "routing/src/lib.rs", "packages/router/src/lib.rs"],
     [("register / clear", HK + "routing-custom/src/lib.rs"), ("fallback", HK + "routing-fallback/src/lib.rs")],
     "histories of 2 registry operations on arbitrary domains and recipients (thorough: 3), 2 fallback changes, one route change by an arbitrary 5-letter caller; listings over 3 entries with any 32-byte offset; recipients in upper-case hexadecimal", "longer histories, larger tables")
prop("H05", "hooks", "h05", "Pausable hook passes dispatches exactly while not paused",
     "Dispatches through the pausable hook succeed exactly while it is not paused, and it asks for no fee. The pause state changes only through its owner, who can always change it, and is reported faithfully.",
     ["histories", "inputs"], "all sequences of pause, release and dispatch by owner and strangers from either initial state", "Tests flip the state once.",
     [HK + "pausable/src/lib.rs", "packages/pausable/src/lib.rs"], [("pause gate", HK + "pausable/src/lib.rs")],
     "histories of 2 state changes with a dispatch after each (thorough: 4)", "longer histories")

prop("C01", "codec", "c01", "Messages and transfers have one exact wire form, read and written losslessly",
     "A message is encoded as version, nonce, origin, sender, destination, recipient and body at fixed big-endian offsets; every byte string with a full header decodes to exactly the fields at those offsets and re-encodes to itself, and truncated headers are never decoded. The id is the keccak-256 of exactly that encoding, so distinct encodings are distinct messages. Sender and recipient fields name exactly one account each. Token transfers are recipient, 256-bit amount and metadata, likewise lossless.",
     ["inputs"], "all field values and byte strings of the lengths within the bounds",
     "The wire format must agree with the other chains for every message; tests encode a few fixtures.",
     [IF + "types/message.rs", IF + "warp/mod.rs", IF + "types/bech32.rs", IF + "types/crypto.rs"],
     [("wire encoding", IF + "types/message.rs From impls"), ("transfer encoding", IF + "warp/mod.rs From impls")],
     "every body length 0 to 40 (thorough: 0 to 400), every truncated header length 0 to 76; transfers of every length 0 to 99; 2 address prefixes; bodies of 5000 bytes",
     "longer bodies; encoding a message whose sender or recipient is not 32 bytes")
prop("C02", "codec", "c02", "Metadata formats are read back exactly as written, and never past their end",
     "Multisig, aggregate and gas metadata are laid out as documented; what is encoded is decoded unchanged, each signature and each module's segment in its own place. Truncated metadata and segment bounds outside the metadata are refused, partial signatures are never read, and a refund address is taken only when it has an account's length.",
     ["inputs"], "all metadata contents; all segment bound tables; all lengths within the bounds",
     "Tests round trip random fixtures of one shape each; the bounds table is untrusted input.",
     [IF + "types/metadata.rs"], [("metadata layouts", IF + "types/metadata.rs From impls"), ("segment bounds", IF + "types/metadata.rs AggregateMetadata::from_hex"), ("refund address", IF + "types/metadata.rs IGPMetadata::get_refund_address")],
     "message-id metadata of every length 0 to 269 and 0 to 3 and 40 signatures; merkle-root metadata with 0 to 2 signatures (thorough: 6) and 9 lengths; 1 to 3 modules with segments of 0 or 3 bytes (thorough: 0, 1, 2, 65), 1 or 2 modules with an arbitrary bounds entry; refund addresses of 8 lengths",
     "more modules or signatures; encoding metadata beyond 4 GiB")
prop("C03", "codec", "c03", "Account addresses convert to 32 bytes and back without ambiguity",
     "Encoding a 20 or 32 byte account gives the bech32 address of those bytes, decoding gives the bytes back, and the 32-byte form is the account left-padded with zeros, which encodes to the same address again. No other length is ever encoded, and a longer account is never cut to 32 bytes.",
     ["inputs"], "all 20 and 32 byte accounts, all raw lengths within the bounds, several prefixes",
     "Both ends of every transfer rely on this conversion; tests convert a handful of addresses.",
     [IF + "types/bech32.rs"], [("padding and stripping", IF + "types/bech32.rs")],
     "all accounts of 20 and 32 bytes under 3 prefixes; raw lengths 0 to 65 for encoding, 9 lengths up to 40 for decoding",
     "text that is not the encoding of some bytes (checksum detection is the bech32 crate's)")
prop("C04", "codec", "c04", "Signed digests and signer addresses follow the Ethereum conventions",
     "The digest a validator signs is the keccak-256 of the Ethereum prefix, the decimal length and the whole message; a signer's address is the last 20 bytes of the keccak-256 of its public key without the tag byte.",
     ["inputs"], "all messages and keys of the lengths within the bounds",
     "Validators sign off chain with these conventions; tests use fixtures of one length.",
     [IF + "types/crypto.rs"], [("digest", IF + "types/crypto.rs eth_hash"), ("address", IF + "types/crypto.rs eth_addr")],
     "messages of 10 lengths from 0 to 1000 bytes, keys of 33 and 65 bytes", "other lengths",
     ["keccak-256 is an uninterpreted collision-free function that agrees with the real one on concrete data"])

prop("S01", "shared", "s01", "Ownership moves only by the owner's offer and the offered account's acceptance",
     "In every ownable contract the first owner is the configured, valid address. Ownership changes only when the current owner offers it to a valid address, and exactly that account claims it while the offer stands; only the owner withdraws an offer, and only one stands at a time. The owner and pending owner queries always report the true state.",
     ["histories", "inputs", "configurations"], "all sequences of offers, withdrawals and claims by arbitrary accounts in all 15 ownable contracts",
     "Tests call each step once in one contract; who may do what after which history is a property of all histories and callers.",
     ["packages/ownable/src/lib.rs"], [("two-step transfer", "packages/ownable/src/lib.rs"), ("wiring", "contracts/*/*/src execute and query")],
     "histories of 3 operations in each of the 15 contracts and 5 in one of them (thorough: 4 and 6), any 4-letter accounts", "longer histories")
prop("S02", "shared", "s02", "Every administrative operation is accepted exactly from the current owner",
     "Each of the 44 administrative operations of the 15 ownable contracts succeeds when sent by the current owner and is refused, without any effect, from every other account, including one the ownership is merely offered to and a former owner after a completed hand-over. No administrative operation changes the ownership.",
     ["inputs", "configurations", "histories"], "all contracts, all administrative operations, all callers, before, during and after a hand-over",
     "Access control must hold for every operation and every caller; tests sample one stranger per operation, where they do at all.",
     ["packages/ownable/src/lib.rs", "packages/router/src/lib.rs", "packages/connection/src/lib.rs", "packages/pausable/src/lib.rs"],
     [("owner checks", "contracts/*/*/src execute, packages/{router,connection,pausable}")],
     "one well-formed instance of each operation, any 4-letter accounts, with or without a standing or completed transfer; callers include every address the contract was configured with",
     "other arguments (covered by the properties of each contract)")
prop("S03", "shared", "s03", "Listings page through all entries exactly once and in order",
     "A page of routes or custom hooks has exactly the entries strictly beyond the offset in the requested order, at most the requested number, ten by default; more than thirty cannot be requested. The domains query lists them all. So paging from the last entry of the previous page visits every entry exactly once, whatever the domains.",
     ["inputs"], "all offsets, limits and orders over tables of the sizes within the bounds",
     "Tests list two or three entries; page boundaries and byte order of keys matter for all of them.",
     ["packages/router/src/lib.rs", IF + "lib.rs", "contracts/hooks/routing-custom/src/lib.rs"],
     [("page bounds", IF + "lib.rs range_option"), ("listing", "packages/router/src/lib.rs get_routes")],
     "tables of 13 consecutive domains, of 8 domains that differ in every byte, and of 37 followed page by page, in all 6 contracts with a route table (thorough: 33 domains); 4 custom hooks (thorough: 13); any 32-bit or 32-byte offset; limits none, 0, 1, 12, 30, 31", "other tables; larger ones")
prop("S04", "shared", "s04", "A contract migrates only its own state, and only from a strictly older version",
     "Migration succeeds exactly when the stored contract name is the contract's own and the stored version precedes the new one in semantic-version order (a pre-release precedes its release). It then records the new version and changes nothing else; a refused migration changes nothing.",
     ["inputs", "configurations"], "all 17 contracts, stored versions that vary in any one number with or without a pre-release tag, stored names of all other contracts and arbitrary ones",
     "Tests migrate one contract between three versions.",
     ["packages/utils/src/lib.rs"], [("name and version check", "packages/utils/src/lib.rs migrate"), ("wiring", "contracts/*/*/src migrate")],
     "one of the three version numbers is an arbitrary digit 0 to 7 while the others are the current ones; pre-release tag absent or rc8; the rule alone: both versions so, with pre-release tags rc0 to rc7; any 6-letter foreign name",
     "multi-digit version numbers, pre-release tags of another form, build metadata",
     ["the workspace version has single-digit numbers and no pre-release tag"])

E2E = ["contracts/core/mailbox/src/execute.rs", "contracts/hooks", "contracts/isms", "contracts/igps", "contracts/warp"]
CHAIN = "the chain model: messages of a call run in order and atomically, bank and token balances are kept exactly, empty coins are dropped from attached funds and refused in bank sends, a tokenfactory denomination is minted and burned by its creator only, cw20 tokens are standard"
prop("E01", "e2e", "e01", "Across chains, exactly the dispatched and signed messages arrive, once each",
     "A message dispatched on one chain, whose checkpoint (as reported by that chain's merkle hook) a threshold of the destination's validators signs, is accepted by the destination's mailbox with the metadata relayers build, and its recipient is handed the true origin, sender and body exactly once, in whatever order messages are relayed. No replay, no message that too few validators signed and no message nobody signed is ever delivered, with any metadata.",
     ["inputs", "histories", "configurations"], "all domains, senders, bodies, signatures, validator sets and metadata headers; multisig alone, behind a routing module chosen by the recipient, and in an aggregate",
     "Only the composition of mailbox, hooks and modules gives the guarantee users rely on; unit tests run each contract against mocks, so a disagreement between two contracts is invisible to them.",
     E2E[:3], [("delivery", "contracts/core/mailbox/src/execute.rs"), ("verification", "contracts/isms/*"), ("checkpoint", "contracts/hooks/merkle/src/lib.rs")],
     "two messages in both orders with replays, 2 validators with threshold 1 or 2 (thorough: 3 with threshold 3), 3-byte bodies; forgeries of the same length to the same recipient against 1 of 1 validators (thorough: 2 of 2)",
     "longer histories; other lengths (each contract's own properties)",
     ["recovering a public key is an arbitrary function; no validator's key is recovered for a digest it did not sign; keccak-256 is collision free", CHAIN])
prop("E02", "e2e", "e02", "Paying the quoted price dispatches a message, and every unit is accounted for",
     "The mailbox's quote is the sum of what all hooks charge. Paying it suffices; the gas paymaster keeps exactly the price of the gas, the fee hook exactly its fee, what is paid too much goes to the refund address or the sender, nothing gets stuck in the mailbox, the aggregate, routing or merkle hooks, and both shares can be withdrawn in full. If any hook is not paid the whole dispatch is undone.",
     ["inputs", "configurations"], "all fees and payments below 2^48, with equal or different tokens for gas and fee, with and without gas metadata",
     "Fees pass through up to three contracts with different rules; tests use one contract and one amount.",
     E2E[:2] + E2E[3:4], [("splitting of funds", "contracts/core/mailbox/src/execute.rs dispatch"), ("forwarding", "contracts/hooks/aggregate, contracts/hooks/routing"), ("refund", "contracts/igps/core/src/execute.rs")],
     "required aggregate of merkle hook and paymaster with a default routing hook to a fee hook; required fee hook with the paymaster as default hook; four amounts of gas", "other hook graphs; gas arithmetic (G01)", [CHAIN])
prop("E03", "e2e", "e03", "What a bridge has minted is always backed by what it has locked",
     "Through every history of transfers in both directions and deliveries in any order with replays, the collateral locked on one chain equals the supply minted on the other plus all transfers under way; every transfer is delivered exactly once and in full, so everything minted can be redeemed.",
     ["histories", "inputs"], "all amounts below 2^48 and all interleavings of the steps within the bounds, native and cw20 routes on either side",
     "Backing is an invariant over histories of two chains; tests run single calls against mocks.",
     E2E[:1] + E2E[4:], [("locking and releasing", "contracts/warp/*/src/contract.rs"), ("exactly once", "contracts/core/mailbox/src/execute.rs process")],
     "histories of 3 steps with native-to-cw20 and cw20-to-native routes (thorough: 4 steps, all four combinations)", "longer histories; amounts of 2^48 and more (W01, W02 cover single transfers of any amount)",
     ["both mailboxes verify with a module that accepts every dispatched message (E01 covers verification)", CHAIN])
prop("E04", "e2e", "e04", "An emergency stop halts traffic completely and loses nothing",
     "While the pausable hook is paused no message leaves, and the merkle tree holds exactly the messages that left; while the pausable module is paused no message arrives; after release traffic resumes.",
     ["histories", "inputs"], "all histories of pausing and releasing on either chain between messages, within the bounds",
     "A stop that stops only some of the contracts, or leaves traces of a refused message, is invisible to tests of single contracts.",
     E2E[:3], [("pausing", "packages/pausable/src/lib.rs, contracts/hooks/pausable, contracts/isms/pausable")],
     "2 messages (thorough: 3), any pausing and releasing before each", "longer histories", [CHAIN])
prop("E05", "e2e", "e05", "A token transfer that pays for its gas moves exactly its amount and its gas",
     "A transfer with funds for its amount and its gas locks or burns exactly the amount, pays the paymaster exactly its price, returns the rest to the refund address, and pays out the full amount on the other side, also when gas and bridged token are the same coin. A transfer that does not cover its gas is undone completely.",
     ["inputs", "configurations"], "all amounts and payments below 2^48, all four kinds of routes",
     "Four contracts split the same funds; tests never run them together.",
     E2E[:1] + E2E[3:], [("funds of a transfer", "contracts/warp/*/src/contract.rs transfer_remote"), ("refund", "contracts/igps/core/src/execute.rs pay_for_gas")],
     "native collateral to bridged cw20 with the token as gas, bridged native to native collateral, bridged cw20 to cw20 collateral (thorough: all combinations and three gas tokens); four amounts of gas", "transfers without a refund address (the overpayment then goes to the sender of the message, which is the route)", [CHAIN])

prop("A01", "events", "a01", "The events agents follow state exactly what happened, once",
     "Every successful operation that relayers, validators, indexers and explorers follow is announced by its event exactly once, and the event states exactly what happened: a dispatch its id, sender, destination, recipient and full message; a delivery its id, origin, sender and recipient; a tree insertion its id and leaf index; a gas payment its payer, message, destination, gas, price, payment and refund; a claim the amount collected; an announcement its sender, validator and location; a token transfer and its payout their accounts, token, amount, hook and metadata.",
     ["inputs"], "all senders, recipients, domains, ids, bodies, amounts, names and locations",
     "Tests compare a few events with fixed fixtures, built with the same emit functions.",
     ["contracts/core/mailbox/src/event.rs", "contracts/core/mailbox/src/execute.rs", "contracts/core/va/src/contract.rs", "contracts/hooks/merkle/src/lib.rs", "contracts/igps/core/src/event.rs", "contracts/igps/core/src/execute.rs", "contracts/warp/native/src/contract.rs", "contracts/warp/cw20/src/contract.rs"],
     [("mailbox events", "contracts/core/mailbox/src/event.rs"), ("gas payment events", "contracts/igps/core/src/event.rs"), ("tree events", "contracts/hooks/merkle/src/lib.rs post_dispatch")],
     "two dispatches (bodies up to 2000 bytes), one delivery, three tree insertions after 0 to 2^32-4 earlier ones, gas payments of any byte-sized gas and payment at one price, nothing owed included, any 128-bit balance and transfer amount, both token kinds with collateral",
     "events of configuration changes and ownership; larger gas amounts")

prop("A02", "api", "a02", "Clients, relayers and contracts share one unchanging JSON interface",
     "Every message, query and answer of every contract has the documented JSON form: for all values the documented text means exactly that operation with exactly these values, whatever the order of the fields; optional fields may be left out; byte strings are hexadecimal text, amounts decimal text and domains numbers; and whatever a contract writes is read back unchanged. In particular the calls between contracts (handle, post_dispatch, quote_dispatch, verify, interchain_security_module, latest_dispatch_id, gas data) keep their names and shapes.",
     ["inputs"], "all domains, amounts, byte strings and names inside the messages",
     "Tests build messages with the same Rust types on both sides, so a renamed or reshaped field passes them while every deployed client and peer contract breaks.",
     ["packages/interface/src/core/mailbox.rs", "packages/interface/src/core/mod.rs", "packages/interface/src/core/va.rs", "packages/interface/src/hook/mod.rs", "packages/interface/src/ism/mod.rs", "packages/interface/src/igp/core.rs", "packages/interface/src/igp/oracle.rs", "packages/interface/src/router.rs", "packages/interface/src/ownable.rs", "packages/interface/src/connection.rs", "packages/interface/src/warp/mod.rs"],
     [("mailbox messages", "packages/interface/src/core/mailbox.rs"), ("hook messages", "packages/interface/src/hook/mod.rs"), ("security module messages", "packages/interface/src/ism/mod.rs"), ("gas messages", "packages/interface/src/igp/core.rs")],
     "about 190 message forms covering all execute, query and response types of the 17 contracts; byte strings of 32 and 3 bytes, names of 4 and 6 letters, any 32-bit domain, any 128-bit amount, lists of one or two entries",
     "the cw20 token's own instantiation message; other list lengths; JSON whitespace and escapes; messages refused")

PROPS = {p["id"]: (p["bin"], p["prefix"], {"bounds": p["bounds"] + "; outside: " + p["outside"], "assumptions": p["assumptions"]}) for p in P}

NOT_APPLICABLE = []
