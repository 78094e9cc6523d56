"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

B = "monero_glue/protocol/tsx_sign_builder.py"
SG = "monero_glue/protocol/tsx_sign.py"
ST = "monero_glue/protocol/tsx_sign_state.py"
TK = "monero_glue/hwtoken/token.py"
AG = "monero_glue/agent/agent_lite.py"
TESTS_HONEST = "The tests drive one honest host over a few recorded transactions; no test sends a message out of turn, altered, repeated or replayed."

p("S01", "Signing device releases a signature only after every earlier step",
  "The signing device accepts transaction-signing messages only in protocol order and only as many of each as the announced transaction has. A signature is never returned before all inputs were registered, permuted and hashed, all outputs were set and the message to be signed was fixed. Whatever sequence of messages a host sends, a message that is not due is refused.",
  ["histories", "inputs"], "Every sequence of protocol messages (any type, any order, any multiplicity, any index) over announced transactions of any shape.",
  TESTS_HONEST, [B, SG, ST, TK],
  [("phase automaton", ST), ("message dispatch and counters", B), ("wake up from saved state", SG)],
  ["answers of the device's transaction-signing entry point"],
  [("protocol phase", "which message is due", ST)])
p("S02", "Nothing is processed before the user has confirmed the transaction",
  "A signing session begins only after the user has been shown the whole announcement (destinations, change, fee, payment id) and has agreed to it. If the user declines, the device answers with a refusal and accepts no further message of that session. The values shown are the values the rest of the session is held to.",
  ["histories", "inputs"], "All announcements, all answers of the user, all messages the host sends after a refusal.",
  "The tests always run with an interface that agrees to everything.", [B, SG, TK, "monero_glue/hwtoken/iface.py"],
  [("confirmation before parameters are taken over", B)], ["confirmation callback", "device answers"])
p("S03", "A refused message ends the session; a new one starts clean",
  "After the device refuses a message it holds no session: every later message except a new announcement is refused. A new announcement always starts from nothing, whatever was going on before, and nothing the host kept from an earlier session (authentication tags, encrypted secrets, permutations) is accepted in a later one.",
  ["histories", "fault_sequences"], "Every point of a session at which a message can be refused or a new announcement can arrive, followed by any continuation, including items replayed from an earlier session.",
  "No test continues after an error or opens a second session on the same device object half-way through the first.", [SG, B, TK],
  [("state is dropped before a message is handled and saved only after success", TK), ("per-session keys", B)], ["device answers"])
p("S04", "Outputs of the signed transaction are exactly the announced destinations",
  "Every output that enters the signed transaction is one of the destinations the user was shown, with the same address, amount and subaddress flag, in the announced order and each exactly once. A destination that was altered, swapped, repeated, invented or taken from another session is refused.",
  ["inputs", "histories"], "All alterations of any field of a destination or its authentication tag, at every position, for all numbers of outputs.",
  TESTS_HONEST, [B], [("per-index authentication of destinations", B)], ["device answers", "serialized outputs the device returns"])
p("S05", "The inputs hashed into the transaction are the inputs signed, each exactly once",
  "The device signs exactly the inputs it registered, each exactly once, with the ring, amount and key image that were hashed into the transaction, in an order that is a permutation of the registration order. It refuses an order that is not a permutation, and any altered, repeated, exchanged or invented input, commitment or encrypted secret. It registers only outputs that the wallet owns at the announced subaddresses.",
  ["inputs", "histories"], "All permutation messages, all alterations of registered inputs at registration, hashing and signing, for all numbers of inputs.",
  TESTS_HONEST, [B, "monero_glue/xmr/monero.py"],
  [("permutation of inputs", B), ("per-index authentication and encryption of inputs", B), ("ownership test", "monero_glue/xmr/monero.py")], ["device answers", "serialized inputs and signatures"])
p("S06", "What is signed conserves value and pays exactly the announced fee",
  "The device signs only if the inputs' amounts equal the outputs' amounts plus the announced fee. An input is signed only with its true amount. The pseudo output commitments of all signatures add up to the output commitments plus the fee, so no value is created or destroyed.",
  ["inputs", "histories"], "All amounts, fees, numbers of inputs and outputs and signing orders, including amounts the host lies about.",
  "Tests sign a handful of consistent transactions and never an inconsistent one; commitment sums are checked only through one recorded shape.", [B],
  [("fee test before the message is fixed", B), ("commitment correction of the last registered input", B), ("opening check of the spent commitment", B)], ["device answers", "pseudo outputs"])
p("S07", "A change address is accepted only if it is the wallet's own",
  "An address announced as change and paid by the transaction is the main address of the announced account of the wallet that signs; otherwise the announcement is refused. Consequently no recipient's output is ever hidden from or mistaken by the key derivation for change.",
  ["inputs", "configurations"], "All announcements: change present, absent, unpaid, foreign, equal to a recipient, dummy outputs, any account, any number of outputs.",
  "Recorded transactions all have honest change addresses.", [B, "monero_glue/xmr/sub/addr.py"],
  [("change check", B), ("address classification", "monero_glue/xmr/sub/addr.py")], ["device answer to the announcement", "one-time keys of the outputs"])
p("S08", "Every output is covered by a verified range proof before any signature",
  "Before a signature is released, each output's commitment is covered by exactly one range proof that the device made itself or verified over exactly the amounts and masks of that batch. Missing, repeated, early, foreign or corrupt proofs and batch layouts that do not partition the outputs are refused.",
  ["inputs", "histories", "configurations"], "All batch layouts, all client and proof versions, all points at which a proof can be sent, omitted, repeated or altered.",
  "The stable tests sign with one proof in the device; offloaded proofs and irregular batches are not exercised.", [B, "monero_glue/xmr/ring_ct.py"],
  [("batch bookkeeping", B), ("proof verification over stored amounts and masks", B)], ["device answers", "full message hash"])
p("H01", "Host and device together produce a valid transaction for every shape",
  "For every well-formed construction request (any number of inputs and outputs, rings, real positions, subaddresses, payment ids; protocol version 10, or 9 with client 0 or 1) the honest host and device complete, and the serialized transaction is accepted by an independent verifier: prefix, commitments, range proofs, key images in order and ring signatures.",
  ["inputs", "configurations"], "Construction requests over counts 1..16, ring sizes, real positions, destination kinds, versions 9 and 10, client 0 and 1.",
  "Three or so recorded transactions; verification in the tests uses the library that produced the transaction.", [AG, B, "monero_glue/xmr/sub/mlsag_hasher.py", "monero_glue/xmr/mlsag2.py"],
  [("host side of the protocol", AG), ("incremental hashing", "monero_glue/xmr/sub/mlsag_hasher.py")], ["serialized transaction"])
p("H02", "Every recipient can find and spend what was sent",
  "Scanning the signed transaction with a recipient's own keys finds exactly the outputs addressed to that recipient, at the announced subaddress and amount, with a commitment that opens and a one-time key the recipient can spend; an encrypted payment id decrypts for the main address it was given for. Nobody else recognises the outputs.",
  ["inputs", "configurations"], "Mixes of main addresses, subaddresses, change, self-transfers and payment ids of all kinds; versions 9 and 10.",
  "Tests check recorded destinations with the library's own scanning and never all mixes.", [B, AG, "monero_glue/xmr/sub/tsx_helper.py", "monero_glue/xmr/sub/addr.py"],
  [("destination keys and additional keys", B), ("amount and mask encoding", B), ("payment id encryption", "monero_glue/xmr/sub/tsx_helper.py")], ["serialized transaction"])
p("H03", "The host notices when a faulty device changes the transaction",
  "If any device answer is an error, the host stops and reports it. If an answer changes the hashed content of the transaction (inputs, outputs, extra field, output commitments, encrypted amounts, range proofs, signature header), the host notices and returns no transaction as signed.",
  ["fault_sequences", "inputs"], "Every answer of the device replaced by an error, or any of its fields altered, at every step of the protocol.",
  "No test injects a faulty answer.", [AG], [("comparison of prefix and message hashes", AG), ("error handling", AG)], ["result of the host's signing call"])
p("H04", "Transaction keys can be recovered by the wallet, and only for that transaction",
  "The key blob, salt and multiplier the device returns at the end of signing unwrap, with the wallet's spend key and the transaction's prefix hash, to exactly the transaction's secret keys (main and additional), which match the published public keys; with any other wallet, transaction or altered value they do not unwrap. The host's key recovery returns the keys or derivations the device sent only if the answer authenticates for that wallet and transaction, and reports errors.",
  ["inputs", "fault_sequences"], "All signed transactions with and without additional keys; all single alterations of the recovery request.",
  "One recorded round trip at most; no altered request.", [B, "monero_glue/hwtoken/misc.py", AG],
  [("deterministic key wrapping", "monero_glue/hwtoken/misc.py"), ("host side unwrapping", AG)], ["recovered keys"])
p("K01", "Key image synchronisation returns the right key image for every output",
  "For any list of owned outputs of any length, the exchange completes and returns, in order, one key image per output that equals the unique key image of that output, with a proof that verifies.",
  ["inputs", "configurations"], "Lists of 0 to several batches of outputs, received at main addresses and subaddresses, with and without additional keys.",
  "Tests synchronise one recorded list.", ["monero_glue/protocol/key_image_sync.py", "monero_glue/xmr/key_image.py", AG, "monero_glue/xmr/common.py"],
  [("batching", AG), ("key image derivation", "monero_glue/xmr/key_image.py")], ["result of the host's import call"])
p("K02", "Key images are disclosed only for the list the user approved",
  "During key image synchronisation the device releases the decryption key only after it has seen exactly the announced number of outputs with exactly the announced digest, and only if the user agreed. Deviating in number, order or content, repeating steps or sending them out of turn ends the exchange without disclosing anything.",
  ["histories", "inputs"], "Every sequence of synchronisation messages over announced lists; altered, omitted, repeated and reordered outputs; user refusal.",
  "Tests only run the honest exchange.", ["monero_glue/protocol/key_image_sync.py", TK],
  [("running digest and counter", "monero_glue/protocol/key_image_sync.py")], ["device answers"])
p("K03", "Live refresh accepts only a correct key image for the queried output",
  "The host returns a key image from live refresh only if the device's encrypted answer authenticates for that output and carries a valid proof that the key image belongs to that very output key.",
  ["inputs", "fault_sequences"], "All outputs and all altered, swapped or forged device answers.",
  "No stable test runs a live refresh with an answer that should be refused.", [AG, "monero_glue/xmr/ring_ct.py"],
  [("decryption and ring signature check", AG)], ["result of the host's refresh call"])
p("A01", "Addresses encode and decode exactly, and corrupt ones are refused",
  "Encoding then decoding an address of any network and kind gives back the same version, keys and payment id, and the text is the canonical one. A text that is not the canonical encoding of some address (wrong character, length, block overflow, checksum or truncation) is never decoded into keys.",
  ["inputs"], "All block contents and lengths of the encoding, all networks and kinds, all corruptions of a text.",
  "A few fixed addresses; no systematic boundary or corruption.", ["monero_glue/misc/b58_mnr.py", "monero_glue/xmr/sub/addr.py", "monero_glue/xmr/monero.py", "monero_glue/xmr/sub/xmr_net.py"],
  [("block base conversion", "monero_glue/misc/b58_mnr.py"), ("address layout and checksum", "monero_glue/xmr/sub/addr.py")], ["encoded text", "decoded fields"])
p("A02", "Subaddress derivation and ownership agree with the Monero definition",
  "The subaddress for any account and index is the one every Monero wallet derives; the wallet recognises an output as its own exactly if it was sent to one of its known addresses, and then derives the secret that opens its one-time key and the unique key image.",
  ["inputs"], "All accounts and indices up to 32 bits, all senders, additional keys present or absent, output positions, foreign outputs.",
  "A handful of recorded vectors near index zero.", ["monero_glue/xmr/monero.py", "monero_glue/xmr/sub/creds.py", "monero_glue/xmr/crypto.py"],
  [("subaddress keys", "monero_glue/xmr/monero.py"), ("output recognition", "monero_glue/xmr/monero.py")], ["derived keys and key images"])
p("A03", "Seeds and word lists round-trip, and mistyped ones are refused",
  "Any seed converts to words and back to the same seed, deterministically giving the same wallet keys; word lists with an unknown word, wrong count, or a wrong checksum word are refused.",
  ["inputs"], "All seeds; all single-word changes; all word counts.",
  "A few recorded seeds; no wrong checksum.", ["monero_glue/xmr/core/mnemonic.py", "monero_glue/xmr/sub/seed.py"],
  [("word codec", "monero_glue/xmr/core/mnemonic.py"), ("key derivation", "monero_glue/xmr/sub/seed.py")], ["encoded words", "derived keys"])
p("W01", "Wallet exchange files round-trip and reject tampering",
  "Everything the tool writes for the wallet (unsigned and signed transaction sets, outputs exports, account, keys and watch-only files) opens again with the right key or password and holds the same content. Sealed files (sets, exports, account files) are refused when altered, truncated, relabelled or opened with another key. A keys file is refused when truncated or opened with another password; its format has no authentication, so altered bytes are not promised to be noticed. Signing a set gives every transfer its own key image, and nothing is written when the device refuses. Starting the tool never overwrites or adopts another wallet's keys file, and uses the restore height that was confirmed.",
  ["inputs", "fault_sequences", "histories"], "All contents and lengths; every part altered, cut or exchanged; wrong keys; all start dialogues.",
  "Fixed recorded files, no tampering; the dialogues have no tests.", ["monero_glue/xmr/wallet.py", "monero_glue/xmr/enc/chacha.py", "monero_glue/xmr/enc/chacha_poly.py", "monero_glue/agent/agent_lite.py", "monero_poc/agent.py"],
  [("container framing and authentication", "monero_glue/xmr/wallet.py"), ("signing a set", "monero_glue/agent/agent_lite.py"), ("watch-only wallet start", "monero_poc/agent.py")], ["file bytes", "files on disk"])
p("C01", "Wire messages decode to what was encoded; malformed ones are refused",
  "Every message of the protocol survives encoding and decoding unchanged, with the standard encoding of its field types, unknown fields skipped and absent optional fields left empty. A truncated or malformed message raises an error instead of yielding a different message.",
  ["inputs"], "All field values of all types used (unsigned, signed, boolean, bytes, text, nested, repeated), all truncations, unknown fields of every wire type.",
  "Only honest messages of the recorded transactions are encoded.", ["monero_glue/protobuf.py", "monero_glue/hwtoken/misc.py"],
  [("varint and field codec", "monero_glue/protobuf.py")], ["encoded bytes", "decoded messages"])
p("C02", "The transaction extra field is built and parsed consistently",
  "Adding public keys, additional keys, nonces and payment ids to the extra field and parsing it again gives the same items; removing one kind leaves the others; payment id encryption is its own inverse; malformed fields are refused.",
  ["inputs"], "All sequences of field kinds, all nonce and key list lengths across length-byte boundaries, truncations.",
  "Recorded extra fields only.", ["monero_glue/xmr/monero.py", "monero_glue/xmr/sub/tsx_helper.py"],
  [("extra field codec", "monero_glue/xmr/sub/tsx_helper.py")], ["extra bytes"])
p("R01", "Ring signatures verify exactly when honestly made for that message and ring",
  "Each ring signature scheme verifies whatever it signs for every ring size and real position, yields the real key image, and refuses any signature whose message, ring, key image, commitment or any response was altered, and refuses to sign with a wrong secret where it must check.",
  ["inputs"], "All ring sizes and real positions, all single alterations of each component, for every scheme in the code.",
  "Random self-round-trips without alterations.", ["monero_glue/xmr/mlsag2.py", "monero_glue/xmr/ring_ct.py", "monero_glue/trezor_unused/mlsag2.py", "monero_glue/trezor_unused/ring_ct.py"],
  [("ring closure", "monero_glue/xmr/mlsag2.py")], ["signatures and verdicts"])
p("R02", "Range proofs verify exactly for values in range and the committed values",
  "A range proof made for any batch of 64-bit values and masks verifies, and commits to exactly those values; a proof with any altered element, commitment or wrong number of commitments is refused, also inside a batch of proofs. A proof reveals nothing more than that: the randomness that hides values and masks is fresh for every proof.",
  ["inputs"], "Values at and around the boundaries of 64 bits, batch sizes 1..16, each proof element altered, aggregated verification of several proofs.",
  "Round trips with a few values, no altered elements.", ["monero_glue/xmr/bulletproof.py", "monero_glue/xmr/ring_ct.py"],
  [("inner product argument", "monero_glue/xmr/bulletproof.py")], ["proofs and verdicts"])
p("X01", "All crypto backends compute the same, standard functions",
  "Scalar and point arithmetic, encodings, hashing to scalar and point, and key derivation give in every backend the value defined for Monero, for boundary as well as ordinary arguments; invalid encodings are refused.",
  ["inputs", "configurations"], "Boundary scalars and points (0, 1, group order and neighbours, all-ones, small-order and non-canonical points), random ones, both backends.",
  "Recorded vectors and random round trips; boundaries of the encodings are not covered.", ["monero_glue/xmr/core/ec_py.py", "monero_glue/xmr/core/ec_trezor.py", "monero_glue/xmr/core/backend/ed25519.py", "monero_glue/xmr/core/backend/ed25519_2.py", "monero_glue/xmr/crypto.py"],
  [("backends", "monero_glue/xmr/core")], ["function results"])
p("P01", "The tool's companion server acts only after the user's confirmation",
  "The companion signing server starts a signing or key image session, or hands out the watch-only key, only after the user said yes to that request while being shown its data. A refused request yields an error, no result and no session to continue; a request never uses the answer given to another, whatever the order in which requests, questions, answers and their processing happen; a request arriving while another of its kind waits is refused, and none is left without an answer once the user answered.",
  ["schedules", "histories"], "All interleavings of up to three requests, questions, answers, walk-aways, continuation steps and delayed processing.",
  "The server has no tests.", ["monero_poc/trezor.py", "monero_poc/utils/misc.py", "monero_poc/utils/trezor_server_proxy.py", "monero_glue/hwtoken/token.py"],
  [("confirmation prompts", "monero_poc/utils/misc.py"), ("console commands and requests", "monero_poc/trezor.py"), ("sessions", "monero_glue/hwtoken/token.py")], ["server responses", "text shown to the user"])
p("U01", "Command arguments are turned into exactly the amounts and options typed",
  "Amounts typed in coin units become exactly that many atomic units, or are refused if they cannot be represented; commands for sending and sweeping take addresses, priorities, ring sizes, account indices and payment ids from the right positions and refuse incomplete ones. What the wallet prepared is signed only after its amounts and fees were shown exactly and the user agreed.",
  ["inputs"], "All decimal texts with up to the full number of fractional digits and beyond; all argument lists of the documented grammar.",
  "No tests.", ["monero_poc/utils/misc.py", "monero_poc/utils/cli.py"],
  [("amount conversion", "monero_poc/utils/misc.py"), ("argument grammar", "monero_poc/utils/misc.py")], ["parsed values"])
p("V01", "The wallet RPC is the opened wallet's, and commands wait for it",
  "The tool starts the wallet RPC with exactly the wallet file, daemon, port, network and password of the opened account, whatever characters those contain, with no secret on the command line. Commands that need it are passed on only while it runs and after it announced that it is ready, whatever else it writes and in whatever pieces; with a wallet RPC that already runs, that one is used and left alone. Leaving the tool ends the process it started, even one that does not take the request to stop.",
  ["schedules", "histories", "inputs", "fault_sequences"], "All orders of output pieces, commands, sudden ends and leaving; paths, addresses and passwords with any characters; all networks.",
  "No tests: it needs a wallet RPC.", ["monero_poc/agent.py", "monero_poc/utils/misc.py", "monero_glue/xmr/wallet_rpc.py"],
  [("starting and watching the process", "monero_poc/agent.py"), ("requests to it", "monero_glue/xmr/wallet_rpc.py")], ["arguments and input of the process", "requests made", "whether it ends"])
p("M01", "A connected Trezor gets exactly the agent's requests; only right keys count",
  "Through the client library of the hardware wallet every request of the agent reaches the connected device once, in order and with the content it was given, however its binary values are held; every reply reaches the agent wholly as its own message, also when buttons have to be pressed first. A refusal or an unknown reply ends that request with an error and leaves the next one unharmed; so does connecting again. Complete signing and key image protocols work over it. The tool opens the wallet of a device, of the command line or of an account file only when the private view key is that of the address, and writes wallet and account files only then, with exactly these keys.",
  ["inputs", "histories", "fault_sequences", "configurations"], "All messages of the protocol with every choice of fields, lengths and nesting; all sequences of requests and ways to answer; all sources and mismatches of keys.",
  "Tests need a device.", ["monero_glue/trezor/manager.py", "monero_glue/protocol_base/messages.py", "monero_poc/agent.py"],
  [("connection", "monero_glue/trezor/manager.py"), ("conversion", "monero_glue/protocol_base/messages.py"), ("opening", "monero_poc/agent.py")], ["bytes on the wire", "replies as the agent gets them", "files written", "keys opened"])
p("D01", "Commands act only with the opened wallet's own device and ready wallet RPC",
  "Each command that signs, sends, sweeps or synchronises key images does so only when the wallet RPC is ready and the device attached has the address of the opened wallet, whichever device answered an earlier command, whatever device the tool was switched to, and even if it is exchanged while the command runs. Only transactions this device signed, all of them, are submitted, and only after every question was answered with yes; only when the exported outputs are of the opened wallet do all their key images, in order and with valid signatures, reach the wallet RPC. Otherwise nothing is submitted, imported or stored as signed.",
  ["histories", "inputs", "fault_sequences"], "All sequences of commands with any device attached, exchanged at any point; all states of the wallet RPC; outputs and transactions of this, another or a partly equal wallet, broken or missing.",
  "No tests: commands need a device and a wallet RPC.", ["monero_poc/agent.py", "monero_glue/agent/agent_lite.py"],
  [("guards", "monero_poc/agent.py"), ("synchronisation", "monero_poc/agent.py")], ["requests to the wallet RPC", "messages to the device", "files stored"])
p("G01", "Wallets are generated, opened and loaded from exactly the secret given",
  "Generating a wallet uses a fresh secret and records and shows words, seed and keys that all restore that very wallet; what an account file holds is what is opened, whatever else is given, and an existing account file is never changed. The seed tool prints the keys, addresses and subaddresses that belong to the given secret, derivation and networks, and refuses conflicting or broken input. The device initialiser loads exactly the mnemonic, PIN, passphrase setting and label given, after wiping, and nothing after a failure.",
  ["inputs", "histories", "configurations"], "All start, generate and stop histories with and without an account file; all combinations of options of the seed tool and the initialiser.",
  "No tests of the tools.", ["monero_poc/trezor.py", "monero_poc/seed.py", "monero_poc/trezor_init.py", "monero_glue/xmr/sub/seed.py"],
  [("account file", "monero_poc/trezor.py"), ("seed tool", "monero_poc/seed.py"), ("initialiser", "monero_poc/trezor_init.py")], ["account files", "printed keys and addresses", "what the device is loaded with"])
p("B01", "A restore date never maps to a block after that date",
  "For every chain and every date up to its tip, looking up the restore height for the date finishes and returns a height whose block is not later than the date (or the first block), so a wallet restored from it misses no transaction. With ordered block times the height is also no more than about two days or two months of blocks early. A date beyond the tip is refused.",
  ["inputs", "configurations"], "All chain lengths, block time patterns (ordered, equal, disordered) and dates.",
  "No test: it needs a daemon.", ["monero_glue/xmr/wallet.py"],
  [("bisection over block times", "monero_glue/xmr/wallet.py")], ["returned height"])
p("T01", "Incremental hashing equals hashing the whole, and misordered input is refused",
  "Feeding a transaction piece by piece to the incremental hashers gives exactly the hash of the complete transaction for every shape, including when the hasher is suspended and restored between any two pieces; pieces fed in a wrong order are refused.",
  ["histories", "inputs", "crash_points"], "All piece orders, all suspension points, all numbers of inputs, outputs and proofs.",
  "One recorded transaction, no suspension, no misordering.", ["monero_glue/xmr/sub/mlsag_hasher.py", "monero_glue/xmr/sub/keccak_hasher.py"],
  [("ordered section hashing", "monero_glue/xmr/sub/mlsag_hasher.py")], ["digests"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write(
    "".join(json.dumps(x) + "\n" for x in P))
print(len(P), [x["id"] for x in P])
