#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json.  Run from anywhere: tools/props.py
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note)

C = "session/cipher.go"
B = "session/session.go"
ST = "state/record/state_session.go"
SE = "state/record/session.go"
props = [
P("C01", "Session set-up: both sides derive the same secrets",
  "After one side processes the other's genuine prekey bundle, the first message it sends decrypts at the other side to exactly what was sent, with or without a one-time prekey, and so do the replies. Both ends then record each other's identity keys, registration ids and base key, and agree on the session secrets.",
  ["inputs", "configurations"], "all keys, plaintexts and registration ids; with and without one-time prekey; both serialisers; stores that keep live records and stores that keep serialised bytes",
  "the tests run one conversation with one set of random keys, always with a one-time prekey and a live store",
  [B, C, "ratchet/sender.go", "ratchet/receiver.go", "ratchet/ratchet.go", "ecc/curve.go", "kdf/hkdf.go"],
  [("extended triple Diffie-Hellman, initiator", "ratchet/sender.go"), ("extended triple Diffie-Hellman, responder", "ratchet/receiver.go"), ("session construction", B)]),
P("C02", "Every message decrypts, in any order of delivery",
  "In a session, every message either side sends decrypts to its plaintext exactly once, whatever the interleaving of sends and deliveries, including delayed and reordered messages and messages in flight while either side starts a new session with the other.",
  ["schedules", "histories"], "all schedules of sends, in-order and out-of-order deliveries and session resets up to the stated length; all keys; live and serialising stores",
  "the tests deliver in order, with one out-of-order case; schedules are unbounded and interleave with ratchet steps and session archiving",
  [C, ST, SE, B, "keys/chain/key.go", "keys/root/key.go"],
  [("receiver chains and skipped message keys", ST), ("Diffie-Hellman ratchet step", C), ("archived session states", SE)]),
P("C03", "Only what the peer sent is accepted",
  "A message that differs from the genuine one in its ratchet key, counter, previous counter, version, ciphertext or MAC, or a first message whose base key, identity key, prekey ids or embedded message differ, is rejected. A message is not accepted by its own sender, by a third party or in another session.",
  ["inputs", "fault_sequences"], "every alteration of every authenticated field, in messages of the current chain, a new chain, a skipped position, after a gap, and an archived session",
  "the tests contain no altered message; the alterations are exponentially many",
  [C, "protocol/signal_message.go", "protocol/prekey_signal_message.go", B],
  [("MAC over both identities and the whole message", "protocol/signal_message.go"), ("MAC verification before decryption", C)]),
P("C04", "No message decrypts twice",
  "A message that has been decrypted is rejected whenever it arrives again: at once, later, after further ratchet steps, after new sessions were established and the old one archived or promoted, and after the session was saved and reloaded.",
  ["schedules", "histories"], "all schedules of sends, deliveries and resets up to the stated length with every delivered message replayed",
  "the tests never deliver a message twice",
  [C, ST, SE, B],
  [("message keys are removed when used", ST), ("chain key advances past used positions", C), ("promotion of archived states", SE)]),
P("C05", "A rejected message changes nothing",
  "When decrypting a message fails, the stored session, the stored identity keys of established sessions and the prekeys are as before, so the genuine message, messages in flight and replies still decrypt afterwards. This includes forged first messages in the name of a peer.",
  ["fault_sequences", "histories"], "every alteration of messages in five situations, forged first messages with any contents, with and without an existing session, live and serialising stores",
  "the tests never feed a bad message to a session",
  [C, B, ST, SE],
  [("decryption works on copies of the states", C), ("the record is copied before a first message is processed", C), ("stored only on success", C)]),
P("C06", "Memory held for a peer is bounded",
  "A message more than 5000 positions ahead in its chain is rejected and up to 5000 ahead accepted; at most 2000 skipped message keys per chain, 5 receiving chains and 40 archived sessions are kept, always the newest, and everything still kept can be used.",
  ["inputs", "histories"], "every chain position and counter for the lookahead bound; histories that cross each of the limits",
  "the tests stay far from every limit",
  [C, ST, SE],
  [("maxFutureMessages", C), ("maxMessageKeys, maxReceiverChains", ST), ("archivedStatesMaxLength", SE)]),
P("C07", "Keys evolve and are erased",
  "Messages of a chain carry consecutive counters and pairwise different cipher keys, MAC keys and IVs; each change of direction starts a chain at 0 with a new ratchet key and root key and announces the last counter of the chain before. Message keys, chain keys, root keys and private ratchet keys that have been used up no longer occur in the stored session.",
  ["histories", "inputs"], "all keys, every chain position, all delivery orders of three messages over three chains",
  "key reuse and keys left behind do not show in decrypted plaintexts, which is all the tests look at",
  [C, ST, "keys/chain/key.go", "keys/root/key.go"],
  [("chain key step", "keys/chain/key.go"), ("root key step", "keys/root/key.go"), ("counters", C)]),
P("C08", "Sessions start only from authentic, trusted material",
  "A bundle is accepted only if its signed prekey is present and carries a valid signature by its identity key and the identity is trusted; a first message only if its identity is trusted and the prekeys it names exist. Anything else is an error that stores nothing and leaves any existing session unchanged.",
  ["inputs", "fault_sequences"], "every alteration of signed prekey and signature, foreign identities and prekeys, every prekey id, untrusted identities, with and without an existing session",
  "the tests only process genuine bundles and messages",
  [B, C, "ecc/curve.go", "ecc/sign_curve25519.go"],
  [("signature verification of the signed prekey", B), ("trust check", B), ("unknown prekeys rejected", B)]),
P("C09", "One-time prekeys are used once",
  "A one-time prekey is removed from the store exactly when a first message that names it has been decrypted, once, and never the last-resort prekey; other prekeys are kept. After removal the same first message cannot start a session again.",
  ["inputs", "histories"], "prekey ids 0, 1, ordinary, last-resort and above; genuine, repeated and second first messages",
  "the tests do not look at the prekey store after decryption",
  [B, C, "util/medium/medium.go"],
  [("prekey id returned for removal", B), ("removal after decryption", C)]),
P("C10", "Prekey messages are sent until acknowledged",
  "A session initiator sends messages that carry its session set-up data, always the same, until it has decrypted a reply; from then on it sends plain messages. A rejected reply acknowledges nothing, and late first messages still decrypt.",
  ["schedules", "fault_sequences"], "one to three unacknowledged messages, any one delivered first, altered replies",
  "the tests check message types in one fixed order",
  [C, B, ST],
  [("pending prekey", ST), ("cleared on successful decryption", C)]),
P("C11", "Wire messages survive encoding",
  "Every message of each of the four kinds, with any field values, decodes from its encoding to the same field values in both wire formats, and what its accessors report is what was encoded. Encoding does not depend on anything but the fields.",
  ["inputs"], "all field values; ciphertexts up to the stated length; with and without one-time prekey id; both serialisers",
  "the tests encode a handful of messages with small values",
  ["serialize/proto.go", "serialize/json.go", "serialize/protocol_whisper_text.pb.go", "protocol/signal_message.go", "protocol/prekey_signal_message.go", "protocol/sender_key_message.go", "protocol/sender_key_distribution_message.go"],
  [("protocol buffer codec", "serialize/proto.go"), ("JSON codec", "serialize/json.go")]),
P("C12", "Parsers never crash",
  "Decoding any byte string as any kind of wire message or stored record, and any decoded structure with missing or short fields, gives a result or an error, never a panic; bytes that encode no message or record are an error.",
  ["inputs"], "all byte strings up to the stated length for the wire formats; structures with any combination of missing or short fields for stored records",
  "the tests only decode well-formed input",
  ["serialize/proto.go", "serialize/json.go", "protocol/signal_message.go", "protocol/prekey_signal_message.go", "protocol/sender_key_message.go", "protocol/sender_key_distribution_message.go", "state/record/session.go", ST, "groups/state/record/sender_key.go"],
  [("deserialisers", "serialize/proto.go"), ("construction from structures", "protocol/signal_message.go")]),
P("C13", "Stored records survive saving and loading",
  "A session, prekey, signed prekey or sender key record that is serialised and loaded again behaves exactly as the original: same keys, ids, signatures, counters, pending exchanges and skipped keys, and it serialises to the same content.",
  ["inputs", "histories"], "all key material and field values; sessions with pending prekeys, key exchanges, several chains and skipped keys, archived states",
  "the tests store live pointers and hardly ever reload; field mix-ups only matter for particular later operations",
  ["state/record/prekey.go", "state/record/signed_prekey.go", SE, ST, "state/record/state_chain.go", "state/record/state_pending_prekey.go", "state/record/state_pending_key_exchange.go", "groups/state/record/sender_key.go", "groups/state/record/state_sender_key.go", "serialize/json.go"],
  [("conversion between records and structures", "state/record/state_chain.go"), ("JSON codec", "serialize/json.go")]),
P("C14", "Only supported protocol versions are accepted",
  "A wire message is accepted exactly if its version lies between the oldest supported and the current version, and decrypts only in a session of the same version; the version a message reports is the one it carries.",
  ["inputs"], "every version number in every kind of message",
  "the tests only use the current version",
  ["protocol/signal_message.go", "protocol/prekey_signal_message.go", "protocol/sender_key_message.go", "protocol/sender_key_distribution_message.go", C],
  [("version checks", "protocol/signal_message.go"), ("session version check", C)]),
P("C15", "Group messages decrypt at every member",
  "After members process a sender's distribution message, every message the sender sends afterwards decrypts at each of them to its plaintext, in any order up to 2000 ahead, exactly once per member, and members who join later read everything after their distribution message and nothing before. New distribution messages do not disturb messages of earlier ones.",
  ["schedules", "histories", "inputs"], "all schedules up to the stated length, all keys and plaintexts, two receivers and a late joiner, chain positions anywhere, live and serialising stores",
  "the tests send a few messages in order to one receiver",
  ["groups/cipher.go", "groups/session_builder.go", "groups/ratchet/sender_chain_key.go", "groups/ratchet/sender_message_key.go", "groups/state/record/state_sender_key.go", "groups/state/record/sender_key.go"],
  [("sender chain", "groups/ratchet/sender_chain_key.go"), ("skipped keys", "groups/cipher.go")]),
P("C16", "Group messages are authenticated",
  "A group message altered in any field is rejected by every member, and no member can produce a message that others accept as from another sender.",
  ["inputs", "fault_sequences"], "every alteration of key id, iteration, ciphertext, version and signature; messages signed by another member",
  "the tests contain no altered message",
  ["groups/cipher.go", "protocol/sender_key_message.go", "ecc/sign_curve25519.go"],
  [("signature verification", "groups/cipher.go")]),
P("C17", "A rejected group message changes nothing",
  "When decrypting a group message fails, the member's stored sender key is as before and all genuine messages still decrypt.",
  ["fault_sequences"], "every alteration of group messages, also validly signed messages that do not decrypt; live and serialising stores",
  "the tests never feed a bad message to a group session",
  ["groups/cipher.go", "groups/state/record/state_sender_key.go"],
  [("stored only on success", "groups/cipher.go")]),
P("C18", "Group state is bounded",
  "A group message more than 2000 ahead is rejected, at most 2000 skipped message keys are kept per sender key, and a sender key record keeps at most 2000 states, dropping the oldest.",
  ["inputs", "histories"], "every chain position and iteration for the lookahead bound; histories that cross the limits",
  "the tests stay far from every limit",
  ["groups/cipher.go", "groups/state/record/state_sender_key.go", "groups/state/record/sender_key.go"],
  [("lookahead limit", "groups/cipher.go"), ("skipped key limit", "groups/state/record/state_sender_key.go"), ("state limit", "groups/state/record/sender_key.go")]),
P("C19", "The message cipher is exact and safe",
  "Decrypting what was encrypted under the same key and IV gives the plaintext, for every length; arbitrary ciphertexts, keys and IVs of any length give a result or an error, never a panic or a wrong length; padding is removed exactly if well formed. The caller's buffers are not modified.",
  ["inputs"], "all contents and all lengths up to the stated bound",
  "the tests encrypt a few short strings",
  ["cipher/cbc.go", "cipher/cipher.go"],
  [("CBC with PKCS padding", "cipher/cbc.go")]),
P("C20", "Public keys decode exactly",
  "An encoded public key decodes to the same point and encodes back to the same bytes; input that is too short or has an unknown type is an error, never a panic.",
  ["inputs"], "all byte strings up to the stated length and all offsets",
  "the tests decode valid keys only",
  ["ecc/curve.go", "ecc/djb_ec_public.go"],
  [("DecodePoint", "ecc/curve.go")]),
P("C21", "Key pairs are well formed",
  "Every generated private key is a valid Curve25519 scalar made from fresh randomness with the matching public key, and a key pair made from a given private key has the public key that goes with it.",
  ["inputs"], "all random draws and all given private keys",
  "a missing clamp or a fixed bit shows only for some random keys",
  ["ecc/curve.go", "ecc/ec_pair.go"],
  [("key generation", "ecc/curve.go")]),
P("C22", "The key schedule is the Signal protocol's",
  "Shared secrets, root, chain and message keys, message MACs and group keys are exactly those the Signal protocol specifies, so that sessions interoperate with other implementations.",
  ["inputs"], "all keys and chain positions",
  "both ends of a test run the same code, so a consistent deviation goes unnoticed; that a derivation is right for all inputs is beyond any sample",
  ["ratchet/sender.go", "ratchet/receiver.go", "ratchet/ratchet.go", "kdf/hkdf.go", "keys/root/key.go", "keys/chain/key.go", "protocol/signal_message.go", "groups/ratchet/sender_message_key.go", "groups/ratchet/sender_chain_key.go"],
  [("triple Diffie-Hellman", "ratchet/sender.go"), ("HKDF", "kdf/hkdf.go"), ("chain keys", "keys/chain/key.go")]),
P("C23", "Fingerprints read the same on both sides",
  "The displayable fingerprint of two keys is the same text whichever side computes it, and consists of the decimal remainders of the successive five-byte chunks of both fingerprints, zero padded, five digits each.",
  ["inputs"], "all pairs of fingerprints",
  "no test computes a fingerprint",
  ["fingerprint/display.go", "util/bytehelper/byte.go"],
  [("chunk encoding", "fingerprint/display.go"), ("ordering", "fingerprint/display.go")]),
P("C24", "Symmetric key exchange agrees",
  "Two users who exchange base, ratchet and identity keys derive the same root and chain key, whatever the keys; a different identity derives different ones.",
  ["inputs"], "all keys of both users",
  "no test performs a symmetric exchange; role selection depends on the order of random keys",
  ["ratchet/ratchet.go", "ratchet/symmetric.go"],
  [("role selection", "ratchet/ratchet.go")]),
P("C25", "Provisioning envelopes are authenticated",
  "A provisioning envelope made for a device's key decrypts to its message; any altered, truncated or forged envelope is an error, never a panic or another message.",
  ["inputs", "fault_sequences"], "all keys, messages up to the stated length, every alteration, every malformed input up to the stated lengths",
  "no test touches provisioning",
  ["provision/cipher.go"],
  [("MAC check before decryption", "provision/cipher.go")]),
P("C26", "Signatures verify exactly for what was signed",
  "A signature made with a private key verifies under the matching public key for that message, for every key and message; it does not verify for another message or key, nor after any alteration. Two signatures of the same message differ in their nonce.",
  ["inputs", "fault_sequences"], "all keys and random nonces, messages up to the stated length, every alteration of message and signature",
  "the sign bit handling and reductions matter only for some keys; a test samples a few",
  ["ecc/sign_curve25519.go", "ecc/curve.go", "ecc/edwards25519/edwards25519.go"],
  [("XEdDSA", "ecc/sign_curve25519.go")]),
P("C27", "Key and byte helpers do what they say",
  "Generated prekeys have the ids asked for and distinct keys, the last-resort key has the reserved id, signed prekeys carry the identity's signature; the byte helpers split, trim, copy and convert without losing or sharing data and report impossible requests.",
  ["inputs"], "all contents, lengths and part sizes up to the stated bounds; several starting ids and counts",
  "the tests generate prekeys 1 to 100 only",
  ["util/keyhelper/key.go", "util/bytehelper/byte.go"],
  [("key generation", "util/keyhelper/key.go"), ("splitting", "util/bytehelper/byte.go")]),
P("C28", "Asynchronous calls report what the plain calls return",
  "The asynchronous forms of signing, verifying and key generation invoke exactly one completion, with the result of the plain form: success exactly if that succeeds. This also holds when several run at the same time: none influences another's result or blocks it.",
  ["schedules", "inputs"], "all keys and messages, genuine and altered",
  "no test uses the asynchronous forms",
  ["ecc/curve.go", "util/keyhelper/key.go"],
  [("completions", "ecc/curve.go")]),
P("C29", "Curve and scalar arithmetic behind signatures is exact",
  "Field elements add, subtract, negate, multiply, square and invert modulo 2^255-19 and encode to their reduced 32 bytes; scalars multiply, add and reduce modulo the group order, fully reduced; doubling, addition of table entries and conversion of points follow the curve's addition law; the table holds the multiples of the base point, multiplying the base point by a scalar gives that multiple, and a point is encoded as y with the sign of x.",
  ["inputs"], "all field elements within the documented digit bounds, all 256- and 512-bit scalars, all points, all table entries, operands aliasing results",
  "carries and reductions go wrong only for one value in 2^20 or rarer, far from anything a test draws",
  ["ecc/edwards25519/edwards25519.go", "ecc/edwards25519/const.go", "ecc/sign_curve25519.go"],
  [("field arithmetic", "ecc/edwards25519/edwards25519.go FeAdd..FeInvert"), ("scalars", "ecc/edwards25519/edwards25519.go ScMulAdd, ScReduce"),
   ("base multiplication", "ecc/edwards25519/edwards25519.go GeScalarMultBase"), ("table", "ecc/edwards25519/const.go")],
  "For this property the arithmetic itself is encoded, as integer polynomials with floor divisions, and decided by linear integer arithmetic; nothing is idealised.",
  ),
P("C30", "Sessions and groups are independent of each other",
  "Using one session or group never affects another: with several peers, several devices of one peer and several groups in one store, every message decrypts as if the others did not exist, even when an operation with one peer takes place while an operation with another waits in a store or log call. An operation uses only the records of its own address or sender key name. Plaintexts, messages and bytes the caller holds are the caller's: overwriting them changes nothing in a session or group, and using a session or group does not change them.",
  ["schedules", "inputs"], "every point at which one operation calls a store or the log, every pair of operations; all keys and texts",
  "the tests use one conversation at a time and never overwrite or keep a buffer",
  ["session/cipher.go", "session/session.go", "groups/cipher.go", "groups/session_builder.go", "cipher/cbc.go", "kdf/hkdf.go"],
  [("sessions by address", "session/cipher.go"), ("groups by sender key name", "groups/cipher.go")]),
P("C31", "A stop at any moment loses nothing",
  "If the program stops in the middle of an operation, between any two store calls or just as the operation returns, and goes on later with what its stores hold, then whatever was sent or is sent afterwards still decrypts, and at most once: a message whose session had not been stored decrypts when it is delivered again, one whose session had been stored is not accepted again, nothing handed out before the stop becomes unreadable, messages under way in both directions are read, and bundles and distribution messages can be processed again.",
  ["crash_points", "inputs"], "a stop before every store call and at the return of sending, receiving (current, new and skipped positions, archived sessions, first messages), processing a bundle, and every group operation; all keys and texts; both serialisers",
  "no test stops an operation half way or looks at the order in which an operation writes to its stores",
  [C, B, "groups/cipher.go", "groups/session_builder.go"],
  [("order of store calls when receiving", "session/cipher.go DecryptMessageReturnKey, DecryptAndGetKey"), ("session stored before a message is handed out", "session/cipher.go Encrypt"),
   ("bundle", "session/session.go ProcessBundle"), ("sender key records", "groups/cipher.go")],
  note="Stores are taken to write each record atomically; a torn write of a single record is a matter of the application's store and outside."),
P("C32", "Nothing is made without randomness",
  "When the system's random source fails, or delivers its bytes piece by piece, every generated key and initialization vector is made of as many fresh bytes as it needs, each used once, or the operation is an error that returns nothing, stores nothing and changes nothing; the same operation succeeds once the source works again. Signatures verify even without randomness, and signatures of different messages or with different keys never share a nonce.",
  ["fault_sequences", "inputs"], "a source that delivers everything or pieces, and fails at any call, with or without some bytes; identity keys, prekeys, signed prekeys, group signing keys, initialization vectors, bundles, ratchet steps, first messages, groups; all keys and texts",
  "the tests always have a working random source",
  ["ecc/curve.go", "util/keyhelper/key.go", "cipher/cbc.go", B, C, "groups/session_builder.go", "ecc/sign_curve25519.go"],
  [("key generation", "ecc/curve.go GenerateKeyPair"), ("ratchet step", "session/cipher.go getOrCreateChainKey"), ("initialization vector", "cipher/cbc.go"), ("hedged nonce", "ecc/sign_curve25519.go sign")],
  note="Registration ids and sender key ids, which need not be secret, and the sender key's seed, drawn by crypto/rand.Read, which ends the program if the source fails, are outside."),
P("C33", "Errors, warnings and messages show no secrets",
  "No error returned, no warning or error logged and no message sent contains any part of a private key, root or chain key, message key or plaintext (beyond a length or a byte of padding), whether an operation succeeds or fails; a distribution message does not contain the private signing key.",
  ["inputs", "fault_sequences"], "all keys and texts; successful operations and every kind of failure of sessions, groups, ciphers, provisioning and loading of records",
  "tests never look at the text of errors or the log, least of all on the paths that fail",
  [C, B, "groups/cipher.go", "groups/session_builder.go", "cipher/cbc.go", "cipher/cipher.go", "provision/cipher.go", "protocol/signal_message.go", "state/record/prekey.go"],
  [("errors", "session/cipher.go, groups/cipher.go, cipher/cbc.go"), ("log", "logger/logger.go Warning, Error"), ("messages", "protocol, serialize")],
  note="What is logged at the level Debug, which the default logger drops, is outside: it contains keys by design."),
P("C34", "What the library logs reaches the log",
  "Every message logged is passed exactly once to the logger set up last, at its level, with its text and the file and line of the statement that logged it, and settings are passed on to it. Without a logger set up, warnings and errors of the configured callers (all unless configured) appear once in the standard log with level, caller and text, and nothing else does. Whatever the logger, sessions work the same.",
  ["inputs", "histories"], "all texts, callers and settings up to the stated lengths, every level; default logger, own logger, own logger replaced; a session with a damaged message under each",
  "no test looks at the log, and the default logger is used by none of them with a configuration",
  ["logger/logger.go", "logger/default.go"],
  [("delivery", "logger/logger.go Debug, Info, Warning, Error, getCaller"), ("default logger", "logger/default.go shouldLog, log")]),
P("C35", "Records hold exactly what was put into them",
  "Session states, session records and sender key states hold exactly the chains, message keys and states put into them: each is found, returned unchanged and removed by its own ratchet key, counter, base key or position and no other; previous states keep their order; copies are independent. What is not there is reported as absent or as an error and changes and stores nothing: encrypting or decrypting without a session or sender key, missing chains and keys. An empty record can be saved, loaded and used.",
  ["histories", "inputs"], "every sequence of up to four (thorough five) operations with all keys, counters and iterations, queried with every counter and base key",
  "no test uses a record on its own, or asks for something that is not there",
  ["state/record/state_session.go", "state/record/session.go", "state/record/state_chain.go", "groups/state/record/state_sender_key.go", "session/cipher.go", "groups/cipher.go"],
  [("session states", "state/record/state_session.go"), ("session records", "state/record/session.go"), ("sender key states", "groups/state/record/state_sender_key.go")]),
P("C36", "A session can be ended and resumed",
  "An application may archive or delete a session at any time. In an archived session nothing more is encrypted, but what is under way of it still decrypts, in both directions and including skipped messages, which resumes it; a new session can be started by either side, and messages of the archived one still decrypt then. Nothing of a deleted session decrypts or encrypts, and a new one can be started by either side.",
  ["histories", "schedules"], "either side, archived once or twice or deleted, at four stages of a conversation, followed by messages under way, a new bundle, or a new session of the peer; all keys and texts",
  "no test archives or deletes a session",
  ["state/record/session.go", "state/record/state_session.go", "session/cipher.go", "session/session.go"],
  [("archiving", "state/record/session.go ArchiveCurrentState, PromoteState"), ("resuming", "session/cipher.go DecryptWithRecord")]),
]

harness = os.path.join(root, "harness/h")
claimed = set()
for f in os.listdir(harness):
    claimed |= set(re.findall(r"gosym:prop=(C\d+)", open(os.path.join(harness, f)).read()))
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in props:
        if p["id"] not in claimed:
            continue
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
note = ("Bounded: every claim holds for all values within the bounds its evidence file lists (schedule lengths, message sizes, limits crossed); "
        "nothing is claimed beyond them. The repository's own code is executed symbolically from go/ssa of the current tree; hashes, MACs, AES, "
        "Diffie-Hellman and the signature group are idealised (uninterpreted, collision free, unforgeable after the honest phase; see DESIGN.md), "
        "random draws are distinct, and the Go runtime and standard library beneath the modelled calls are trusted. Explored paths are run natively to "
        "check the encoding, and every reported violation is first reproduced on the real code.")
extra = {p["id"]: p["note"] for p in props if p["note"]}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p["id"] in claimed:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": "symbolic execution of the Go SSA with SMT (z3), counterexamples replayed natively", "level": "model_checking",
            "level_note": note + (" " + extra[p["id"]] if p["id"] in extra else "")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed;", [p["id"] for p in props if p["id"] not in claimed], "not yet")
