HOOK_COMMITS = []
ENG = "src/storage/store/engine.rs"
ACC = "src/storage/store/account/"
I, H, S, C, F, CF = "inputs", "histories", "schedules", "crash_points", "fault_sequences", "configurations"

prop("A02", "Crash at any storage write leaves a node with a prefix of committed blocks",
 "A node killed at any moment, with only what its disk had made durable surviving, restarts at a height it really committed and not below what it had acknowledged, holding exactly the account state, events and confirmed block of that height. It then goes on to the same state as nodes that never crashed.",
 [C, F, H], "every point between two storage writes of a commit, every loss of unsynced writes the disk allows, every history before and after",
 "The tests never stop a node inside a commit: they drop and reopen a database between blocks at most, so a commit split over several writes looks atomic to them.",
 [ENG, "src/storage/store/shard.rs", "src/storage/store/block.rs", "src/storage/store/block_engine.rs", "src/storage/db/rocksdb.rs"],
 [("one batch per block: state, events, block", "src/storage/store/engine.rs commit_and_emit_events / commit_shard_chunk"), ("block batch", "src/storage/store/block_engine.rs commit_block"), ("transaction batches applied in one write", "src/storage/db/rocksdb.rs commit")],
 ["state root, confirmed height, stored events and stored blocks after restart"])
prop("A04", "Catching up reaches the same state as having voted",
 "A node that was away and replays decided blocks, whether as a validator catching up or as a read-only node, holds the same account state, state root, events and answers at each height as the nodes that executed the blocks when they were proposed.",
 [S, H, F], "every stretch of blocks missed, every mix of voting and catching up, every interruption of the catch-up",
 "The tests compare a handful of replays of short scripted blocks; agreement must hold for any block content and any split between live execution and replay.",
 [ENG, "src/storage/store/block_engine.rs", "src/node/snapchain_read_node.rs"],
 [("replay of a decided proposal", "src/storage/store/engine.rs replay_proposal / commit_shard_chunk"), ("cached transaction used only when it is for the decided root", "src/storage/store/engine.rs commit_shard_chunk")],
 ["state root, account rows, event ids and bytes by height on each node"])
prop("A09", "Every node records the same events, numbered upward without gaps",
 "For each shard, the event history a node keeps and broadcasts has strictly rising ids, and any two nodes give the same events the same ids for the same block, whether they voted on it, replayed it or crashed and came back.",
 [S, H, C], "every block content, every node role, every restart",
 "Order inside a block can depend on map iteration, which differs from process to process; a test in one process with one seed cannot see two nodes disagree.",
 [ENG, ACC + "event.rs"],
 [("event id from height and sequence", ACC + "event.rs HubEventIdGenerator / EventsTx"), ("deterministic order of events in a block", "src/storage/store/engine.rs replay_snapchain_txn")],
 ["stored events by id, the broadcast stream"])
prop("A10", "Honest proposals are reproduced everywhere and altered ones are refused",
 "A block proposed by an honest node is accepted by every node at the same height, whatever waits in that node's own queues and whatever it executed or rejected before. A block whose messages, account roots or state root were altered after execution is rejected by every honest node and leaves its state untouched.",
 [I, H, S], "every block content and every alteration of it, every earlier sequence of accepted and rejected proposals",
 "The tests propose and validate scripted blocks on one engine; determinism across nodes and refusal of any altered block quantify over contents and histories.",
 [ENG, "src/storage/store/block_engine.rs", "src/storage/trie/merkle_trie.rs"],
 [("replay compares roots", "src/storage/store/engine.rs validate_state_change / replay_proposal"), ("proposal reload of the state tree", "src/storage/trie/merkle_trie.rs reload")],
 ["verdict of each node on each proposal; state root after rejection"])
prop("B01", "Conflicting messages resolve to the same winner in any order",
 "For everything an account says about one thing (a cast, a reaction to a target, a link to a target, a profile field, an address verification), the stored message is the one the ordering rules prefer among those accepted: later timestamp, removal over addition at equal time, higher hash at equal kind. A losing message is rejected with no effect, and at most one message per thing is stored, whichever order and blocks they arrive in.",
 [I, S, H], "every multiset of messages, every arrival order, every grouping into blocks",
 "The store tests try pairs in a few fixed orders; the claim is over all orders and groupings, interleaved with pruning, restarts and rejection.",
 [ACC + "store.rs", ACC + "cast_store.rs", ACC + "reaction_store.rs", ACC + "link_store.rs", ACC + "user_data_store.rs", ACC + "verification_store.rs"],
 [("conflict lookup and comparison", ACC + "store.rs get_merge_conflicts / message_compare"), ("per-type keys", ACC + "*_store.rs make_add_key / make_remove_key")],
 ["stored messages by account, merge verdicts"])
prop("B02", "Storage limits hold, and only the oldest messages give way",
 "After each block, the messages an account has stored of each kind do not exceed what the storage it held when the block began allows; when they would, the oldest by timestamp are removed first and nothing else is. An account within its limit loses nothing, and an account with storage has its messages considered.",
 [I, H, S], "every mix of rent events, message kinds and timestamps, every grouping into blocks",
 "Tests fill one store past its limit once; miscounting shows only in mixtures of additions, removals, replacements and rents across kinds.",
 [ENG, ACC + "store.rs", "src/storage/store/stores.rs"],
 [("prune after merge", ACC + "store.rs prune_messages"), ("counts and limits", "src/storage/store/stores.rs get_usage / Limits"), ("storage slot", ACC + "onchain_event_store.rs StorageSlot")],
 ["stored messages and prune events after each block"])
prop("B03", "The state root commits to exactly the stored messages",
 "At every height, the state root a node reports is the root obtained by inserting exactly the currently stored on-chain events, names and messages, in any order, into an empty tree, and it is the root the block carries. No stored item is missing from the tree, none that was removed remains, and the number of items agrees.",
 [H, I, C], "every history of insertions, removals and restarts",
 "Tests check the tree and the stores apart; that they never drift needs every path that adds or removes a message to update both.",
 ["src/storage/trie/merkle_trie.rs", "src/storage/trie/trie_node.rs", ENG],
 [("tree update per event", "src/storage/store/engine.rs update_trie / merkle_trie.rs update_for_event"), ("node split and compaction", "src/storage/trie/trie_node.rs insert / delete")],
 ["trie contents, item count and root against the stored rows"])
prop("B04", "Every lookup agrees with the stored messages",
 "Each secondary lookup (casts by parent and by mention, links and reactions by target, a message by its identity) returns exactly the stored messages that match the query, no more, none twice, at every point of the history.",
 [H, I], "every history of additions, replacements, removals, prunings and revocations",
 "Index entries are written and removed on separate paths; a leak shows only after particular sequences such as replace then prune.",
 [ACC + "cast_store.rs", ACC + "reaction_store.rs", ACC + "link_store.rs", ACC + "verification_store.rs"],
 [("build/delete secondary indices", ACC + "*_store.rs build_secondary_indices / delete_secondary_indices")],
 ["lookup answers against a scan of stored messages"])
prop("B05", "A removed signer adds nothing more",
 "From the moment an account's removal of a signing key is committed, and until the account adds the key again, no message signed by that key is accepted for the account, on any node and whatever its timestamp, while messages accepted before stay. Other keys are unaffected.",
 [I, S, H], "every order of signer events and messages, within and across blocks",
 "Tests remove a signer once; the guarantee has to survive re-adding, several keys, same-block order and replay.",
 [ENG, ACC + "onchain_event_store.rs", ACC + "active_key.rs"],
 [("signer lookup during validation", "src/storage/store/engine.rs validate_user_message"), ("signer index", ACC + "onchain_event_store.rs get_active_signer")],
 ["merge verdicts and stored messages after signer removal"])
prop("B06", "A name has one owner, and profiles show only owned names",
 "At every point each name is held by at most one account, ownership follows the latest valid transfer or proof, and looking a name up by name and by account agree. A profile never shows a name its account does not own: losing the name removes it from the profile in the same block.",
 [I, S, H], "every sequence of transfers, proofs and profile changes, every grouping into blocks",
 "Tests transfer one name once; uniqueness and profile consistency depend on sequences across accounts.",
 [ACC + "name_registry_events.rs", ACC + "username_proof_store.rs", ACC + "user_data_store.rs", ENG],
 [("registry merge", ACC + "name_registry_events.rs put_username_proof_transaction"), ("revocation of the lost username", "src/storage/store/engine.rs merge_fname / handle fname transfer")],
 ["name lookups both ways, profile rows"])
prop("B07", "Trying a message or a refused block leaves no trace",
 "Checking a message without committing it, or executing a block that is then rejected or superseded, changes neither the stored data nor the state root, and answers as a real commit would at that moment.",
 [I, H, S], "every message and block tried, at every point of the history",
 "Tests check that a simulated message is not stored; leftovers in the shared state tree or caches show only in what happens next.",
 [ENG, "src/storage/trie/merkle_trie.rs"],
 [("trie reload after a trial", "src/storage/store/engine.rs simulate_message / simulate_bulk_messages"), ("uncommitted batches dropped", "src/storage/store/engine.rs validate_state_change")],
 ["full database image and root before and after"])
prop("B08", "Paging returns every item exactly once, in order",
 "Walking any listing page by page, with any page size and in either direction, yields exactly the items of the unpaged listing, once each and in the same order, and the reverse walk is its mirror.",
 [I, H], "every page size, direction and stored population",
 "Tests page through a few rows with one size; boundary errors show at particular sizes and populations.",
 [ACC + "message.rs", ACC + "store.rs", "src/storage/db/rocksdb.rs", "src/storage/util.rs"],
 [("page tokens and iteration", "src/storage/db/rocksdb.rs for_each_iterator_by_prefix_paged"), ("page options", "src/storage/db/mod.rs PageOptions")],
 ["pages of each listing"])
prop("B09", "Only correctly signed messages by a current key of a registered account enter",
 "No message enters an account's state unless it is well formed for its type and network, its hash and signature are right, the account is registered and the signing key is at that moment authorised for it. Altering any covered part of an accepted message makes it unacceptable to every node, alone or inside a block.",
 [I, H], "every message and every alteration, at every point of the signer history",
 "Tests try fixed bad messages against the validator; the guarantee must hold through every path into the state, including replayed and forced ones.",
 ["src/core/validations/message.rs", ENG],
 [("message validation", "src/core/validations/message.rs validate_message"), ("signature check on the block path", "src/storage/store/engine.rs verify_signatures / replay_snapchain_txn")],
 ["merge verdicts for spoiled messages"])
prop("B10", "The event stream alone rebuilds the stored state",
 "Applying a shard's events in order to an empty copy yields exactly the messages, names and on-chain events the node stores; every message a block accepted is reported once, every rejected one is reported as failed, and each block's events end in one confirmation with the right totals.",
 [H, I, C], "every history, including pruning, revocation and restarts",
 "Tests look for expected events of single merges; completeness needs every removal path to report what it removed.",
 [ENG, ACC + "event.rs", ACC + "store.rs"],
 [("events from merges, prunes and revocations", ACC + "store.rs"), ("event log", ACC + "event.rs StoreEventHandler")],
 ["stored and broadcast events against stored rows"])
prop("B15", "A compact link state stands for exactly its targets",
 "Accepting a compact list of an account's links of one type leaves, of the links of that type not newer than it, exactly those to the listed targets; older additions of unlisted targets and older removals are refused afterwards, and a newer list replaces an older one.",
 [I, S, H], "every order of links, removals and compact lists, across blocks and restarts",
 "Tests compact once over a few links; interaction with later links, second lists and pruning is a matter of sequences.",
 [ACC + "link_store.rs", ACC + "store.rs"],
 [("compaction merge", ACC + "store.rs merge_compact_state"), ("conflict with an existing list", ACC + "store.rs get_merge_conflicts")],
 ["stored links and compact states"])
ZERO_NOTE = ("Exploration: seeded histories of shard 0 and the data shards that copy it, on real block and shard engines, with chain events that reach each shard at their own time, block events lost, repeated and reordered, crashes and disk errors at storage writes, skewed clocks and lying proposers; judged by a separately written reference model. "
             "Trusts that model and the storage stand-in.")
prop("B11", "Lending storage never creates or destroys storage units",
 "For every kind of unit and every account, the storage in force is what it rented and has not lapsed, less what it lends, plus what it borrows, so that every unit is usable by exactly one account. A loan is accepted exactly if the lender keeps one unit of its own besides all it lends at that moment, a newer loan to the same account replaces the older one and returns it, and no account ever lends what it borrowed.",
 [H, S, C], "every history of rents, lapses, loans, replacements and returns over the accounts, and every grouping into blocks",
 "The tests lend once or twice between two accounts; conservation is a sum over all accounts, kinds of unit and times, with events pending in the same block, lapses and replays.",
 [ACC + "storage_lend_store.rs", "src/storage/store/block_engine.rs", ACC + "onchain_event_store.rs"],
 [("units a lender must keep", "src/storage/store/block_engine.rs validate_user_message_with_verification_counts"), ("balances of lent and borrowed units", ACC + "storage_lend_store.rs"), ("unit arithmetic", ACC + "onchain_event_store.rs StorageSlot / get_storage_slot_for_fid_at")],
 ["merge and failure events of shard 0", "lent, borrowed and available units on every shard"], note=ZERO_NOTE)
prop("B12", "A key counts exactly while its owner's custody allows it, on every shard",
 "A signing key is added only by the account's present custody address and the requesting application's, with a fresh nonce and an unexpired deadline, and belongs to one account at a time. It is accepted only for the kinds of message it was given, while it has been used within its allowed idle time, and not after it was removed; removal by custody or by the key itself takes effect on every shard at the same place in shard 0's order, whatever that shard knows of the chain.",
 [H, S, C], "every history of keys, nonces, custody changes, scopes and idle times, with chain events reaching each shard at any time",
 "Tests add and remove one key on one engine; the danger is in the interplay of nonces, custody changes that reach shards at different times, expiry and replays.",
 [ACC + "gasless_key_merge.rs", ACC + "key_store.rs", ACC + "active_key.rs", "src/core/validations/key.rs", ENG],
 [("merge of key messages", ACC + "gasless_key_merge.rs"), ("idle time and scopes", ENG + " validate_user_message"), ("form of a key request", "src/core/validations/key.rs")],
 ["verdicts on key messages and on messages signed by keys", "keys, nonces and owners on every shard"], note=ZERO_NOTE)
prop("B13", "Channels follow their owner on chain and the authority of who speaks",
 "Who owns a channel and until when follows from the chain's registrations, renewals and transfers by their place on the chain, in whatever order they arrive. Channel messages take effect in shard 0's order, exactly if their author then held the authority they need, with one message in force per channel, member, pin place or moderated cast, and every shard's copy is the same.",
 [H, S, C], "every history of registrations, transfers, verifications and channel messages, in every order of arrival",
 "Authority depends on the owner, on who verified the owner's address, on membership and roles, all of which change; tests fix all but one of them.",
 [ACC + "channel_store.rs", ACC + "onchain_event_store.rs", "src/storage/store/block_engine.rs", ENG],
 [("registry fold", ACC + "onchain_event_store.rs fold_channel_register_replica"), ("authority", "src/storage/store/block_engine.rs validate_channel_message"), ("slot merges", ACC + "channel_store.rs")],
 ["verdicts on channel messages", "registry, members, pins and moderation on every shard"], note=ZERO_NOTE)
prop("B14", "Verified addresses are decided once and copied everywhere alike",
 "Which addresses an account has verified is decided by shard 0 in its order, within the account's quota there, and every other shard's copy equals shard 0's as of the last event it has applied, save what that shard itself pruned or revoked and said so. At most one of a verification and its removal stands for each account and address.",
 [H, S, C], "every history of verifications, removals, quotas and revocations, with copies lagging by any amount",
 "Tests compare one replay of one event; a copy must hold through lag, lost and repeated events, crashes and pruning.",
 ["src/storage/store/block_engine.rs", ENG, ACC + "verification_store.rs"],
 [("quota and admission", "src/storage/store/block_engine.rs validate_user_message_with_verification_counts"), ("forced replay", ENG + " merge_replayed_verification")],
 ["verdicts on verifications", "verifications stored on every shard"], note=ZERO_NOTE)
prop("A07", "Each shard applies shard 0's events once each, in order",
 "Every effect of a shard 0 block that concerns other shards is announced as an event, numbered without gaps and fixed by the block itself, so that a proposer who drops, repeats, alters or invents one is refused. Every other shard takes effect of each exactly once and in order, however events are lost, repeated or reordered on the way and wherever the shard crashes, and says how far it is.",
 [F, H, C], "every sequence of losses, repetitions and reorderings of events, every crash, every falsification by a proposer",
 "Tests pass events in order once; exactly-once must hold for any delivery and any crash between receipt and commit.",
 ["src/storage/store/block_engine.rs", ENG, ACC + "block_event_store.rs"],
 [("events of a block", "src/storage/store/block_engine.rs generate_block_events"), ("gap check", ENG + " handle_block_event"), ("check of proposed events", "src/storage/store/block_engine.rs validate_state_change")],
 ["votes on blocks", "block events stored", "confirmed position of each shard"], note=ZERO_NOTE)
RULES_NOTE = ("Exploration: seeded edge-case messages and name transfers, times on both sides of every version boundary of every network, and clusters of real engines whose own clocks err; judged by a separately written reference of the protocol's form rules and version schedule. "
              "Trusts that reference and the storage stand-in; external contract signatures are judged elsewhere.")
prop("B16", "A message enters exactly when it is well formed for its kind and version",
 "Whatever a message or name transfer contains, it is accepted by the validator and able to enter the state only if every field obeys the form rules of its kind on that network under the protocol version of that block's time, with the sender's subscription as of then, and its body is of its declared kind; and it is never refused on form if it obeys them. The limits hold exactly at their edges, whether the message is tried alone, proposed, or replayed.",
 [I, CF, S], "every message, network, version, subscription state and block time",
 "Tests sample a few good and bad values per field under one version; the edges of some eighty rules times twenty-two versions, three networks and subscription changes are a space only search reaches.",
 ["src/core/validations/message.rs", "src/core/validations/cast.rs", "src/core/validations/verification.rs", "src/core/validations/key.rs", "src/core/validations/link.rs", "src/core/validations/reaction.rs"],
 [("form rules", "src/core/validations/message.rs validate_message"), ("kind and body", ACC + "cast_store.rs is_add_type"), ("subscription", ACC + "onchain_event_store.rs is_tier_subscription_active_at"), ("name transfers", "src/core/validations/verification.rs validate_fname_transfer")],
 ["validator verdicts", "merge and failure events", "block events"], note=RULES_NOTE)
prop("B17", "An account follows a channel exactly while it likes the channel's token",
 "An account follows a channel exactly while it has a standing like of the one canonical address of that channel's token in the network's registrar. The follows of an account, the followers of a channel, their count and the time of following agree with the stored likes after every block, crash and restart; no other spelling, contract or kind of reaction makes or ends a follow.",
 [I, S, C], "every order of likes, repeats, removals and prunings of every spelling of a token's address, across blocks, crashes and restarts",
 "Tests follow and unfollow once with one well-formed address; the index is kept apart from the likes and must stay in step through replacement, pruning and removal.",
 [ACC + "reaction_store.rs", "src/core/channel_uri.rs"],
 [("follow rows", ACC + "reaction_store.rs"), ("token address", "src/core/channel_uri.rs")],
 ["follows of an account", "followers of a channel", "their count", "time of following"])
prop("C01", "Each message is handed to its shard's builders once, and the pool never stops",
 "A message a node takes in is handed to the block builders of exactly the shards it belongs to, once, higher priority and older first, unless it was meanwhile merged, committed, or replaced by a newer heartbeat; a message it refused never is. Refused are exactly those it already holds or has stored, those of a feature not yet in force, and user messages past their account's rate limit, which changes of the account's storage renew. A user message goes to peers exactly when a client brought it and it was taken in, and nothing anyone sends stops the pool.",
 [I, S, H, C], "every message of every source, every order of arrivals, requests, decided blocks and restarts, every passage of time",
 "Tests insert a few messages and look at one effect each; who gets a message, when limits renew and what outlives a block depend on how arrivals, requests, decided blocks and restarts interleave.",
 ["src/mempool/mempool.rs", "src/mempool/routing.rs", "src/storage/store/mempool_poller.rs"],
 [("taking in and refusing", "src/mempool/mempool.rs insert / message_is_valid / message_exceeds_rate_limits"), ("handing out", "src/mempool/mempool.rs pull_messages, src/storage/store/mempool_poller.rs"), ("which shards", "src/mempool/routing.rs"), ("forgetting", "src/mempool/mempool.rs remove_committed_txns")],
 ["answers to senders", "messages pulled by each shard", "what goes to peers", "the pool's reported size"])
prop("G01", "Housekeeping removes exactly the history past its retention",
 "Scheduled or requested pruning of old blocks and events removes those before the first block at or after the retention time, and nothing else: not the head, not newer history, no account's state, and no blocks before the node has caught up. Whatever it was interrupted by, a later run removes everything then past its time, and the node goes on as one that never pruned.",
 [H, C, F, CF], "every history of blocks and clock readings, every pair of retentions, every page size and every crash or disk error within a run",
 "Tests prune a fixed row of made-up blocks once, without events, restarts, errors or a second run under another retention.",
 ["src/jobs/block_pruning.rs", "src/jobs/event_pruning.rs", "src/storage/store/shard.rs", "src/storage/store/block.rs", "src/storage/db/rocksdb.rs"],
 [("jobs", "src/jobs/block_pruning.rs, src/jobs/event_pruning.rs"), ("pruning of a shard", "src/storage/store/stores.rs prune_events_until, prune_shard_chunks_until"), ("where pruning stops", "src/storage/store/shard.rs get_next_height_by_timestamp"), ("deletion by pages", "src/storage/db/rocksdb.rs delete_paginated")],
 ["stored blocks and events before and after", "first and last block", "block by time"])
prop("I01", "Each block is judged by the rules of its own time on every node",
 "Which rules apply to a block follows from its network and its own timestamp alone, by the published schedule: validators whose clocks err in either direction all accept an honest proposal and apply it alike, and a node that replays it later does so under the same rules.",
 [S, CF, H, F], "every block time around every version boundary and every error of the nodes' clocks",
 "Tests run at one wall-clock time in one process; two nodes whose clocks straddle a boundary never meet in them.",
 ["src/version/version.rs", ENG, "src/storage/store/block_engine.rs", "src/core/util.rs"],
 [("version schedule", "src/version/version.rs version_for"), ("block version", ENG + " version_for / replay_snapchain_txn")],
 ["votes and stored state of nodes with wrong clocks", "the version in force at a time"], note=RULES_NOTE)
