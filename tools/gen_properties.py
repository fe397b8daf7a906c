#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the statements are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

CI, BU, ST, SE, CH = 'session/cipher.go', 'session/session.go', 'state/record/state_session.go', 'state/record/session.go', 'state/record/state_chain.go'
RA, PR, JS, SM, PM = 'ratchet/ratchet.go', 'serialize/proto.go', 'serialize/json.go', 'protocol/signal_message.go', 'protocol/prekey_signal_message.go'
GC, GB, GS, GR = 'groups/cipher.go', 'groups/session_builder.go', 'groups/state/record/state_sender_key.go', 'groups/state/record/sender_key.go'
SKM, SKD = 'protocol/sender_key_message.go', 'protocol/sender_key_distribution_message.go'
T = 'The tests exchange a fixed script of messages between two freshly made users, all in memory'

p('S01', 'Session messages decrypt in any order of arrival',
  'Between two users with an established session, every message one of them sends is decrypted by the other to exactly the bytes that were encrypted (any length, including empty), whatever the order in which messages arrive, however the two directions interleave, and whichever other messages are lost or come late. This holds within the documented limits: at most 5000 messages ahead in its chain, at most 2000 undelivered messages kept per chain, and only the five most recent chains of the other user.',
  ['histories', 'inputs'], 'All interleavings of sends by either side and deliveries of any sent, undelivered message (so all reorderings, losses and delays) of bounded length, with and without one-time prekeys, both message serializers, stores that keep bytes and stores that keep objects; payload lengths around block and buffer sizes.',
  T + ' and in two fixed orders (in order; one shuffled burst); the guarantee is over every interleaving of two directions across several ratchet steps.',
  [CI, ST, CH, 'keys/chain/key.go', 'keys/root/key.go', SM], [('skipped message keys and receiver chains', CI + ':getOrCreateMessageKeys, getOrCreateChainKey; ' + ST), ('chain and root key derivation', 'keys/chain/key.go, keys/root/key.go')],
  ['plaintext returned by session.Cipher.Decrypt / DecryptMessage'], [('receiver chains', 'one per ratchet key of the peer, with skipped message keys', ST)])
p('S02', 'A session message is decrypted at most once',
  'No message is successfully decrypted twice by its recipient: delivering it again fails, no matter which messages, ratchet steps, session re-establishments or reloads from storage lie between the two deliveries. The same holds for the ordinary message carried inside an initial (prekey) message, delivered on its own or wrapped again, as long as the session it belongs to is still among those the recipient keeps.',
  ['histories'], 'All bounded histories of sends, deliveries, re-deliveries (plain, unwrapped, re-wrapped), new sessions and storage reloads.',
  'No test delivers a message twice; the guarantee must survive every later state of the session, including states only reached by promoting archived sessions and reloading.',
  [CI, SE, ST], [('used message keys are removed', ST + ':RemoveMessageKeys'), ('chains only move forward', CI + ':getOrCreateMessageKeys'), ('promotion of archived states', SE + ':PromoteState')],
  ['error returned by session.Cipher.Decrypt / DecryptMessage on the second delivery'])
p('S03', 'A rejected message leaves sessions, identities and prekeys untouched',
  'When a message fails to decrypt for whatever reason (forged, altered, replayed, for another session, unknown prekey, untrusted identity), the recipient is exactly as before: its stored session for the sender, its recorded identity keys, and its one-time and signed prekeys are unchanged, even if the store hands out the same record object each time. In particular every message that could be decrypted before the rejected one arrived still can be.',
  ['histories', 'inputs'], 'Every reachable state of bounded histories times an alphabet of bad messages (alterations of each field of each sent message, replays, splices, forged initial messages, counters far ahead), with object-keeping and byte-keeping stores.',
  'No test delivers a bad message at all.',
  [CI, BU, ST, SE], [('work on copies, commit after authentication', CI + ':DecryptWithState, DecryptMessageReturnKey'), ('identity saved after authentication', BU + ':process')],
  ['records in the session, identity, prekey and signed prekey stores before and after', 'outcome of the genuine messages afterwards'])
p('S04', 'Altered or foreign messages never yield another plaintext',
  'Whatever bytes arrive, decryption either fails or returns exactly a plaintext that the authenticated peer encrypted for this recipient in this session and that had not been returned before. In particular a change to the ciphertext, counter, ratchet key, version or authentication tag of a message, a message of one session or direction presented to another (including back to its own sender), and a message whose sender or recipient identity key is not the one the session was set up with are all rejected.',
  ['inputs', 'histories'], 'All single-bit changes, truncations and extensions of messages, all recombinations of fields of sent messages, all presentations of any message to any session of three users, in the states of bounded histories; both serializers.',
  'The tests only decrypt what was just encrypted; they cannot cover the space of manipulated messages.',
  [CI, SM, PM, PR, JS], [('message authentication over version, counters, ratchet key, ciphertext and both identity keys', SM + ':getMac, VerifyMac')],
  ['plaintext or error returned by session.Cipher.Decrypt / DecryptMessage'])
p('S05', 'Bytes from the network never crash or hang the library',
  'Parsing and decrypting arbitrary bytes as an ordinary, initial, group or group distribution message (with either serializer), or as a provisioning envelope, always returns, with a result or an error: it never panics and never runs away. This holds whether or not a session, prekey, signed prekey or group state that the bytes refer to exists. The same goes for encrypting, with or without a session or group key, whatever was received before.',
  ['inputs', 'histories'], 'All inputs up to a small length over a structural alphabet, all truncations and field-level mutations (absent, empty, short, long, boundary numbers) of valid messages, applied in no-session, fresh, established and multi-session states.',
  'Tests feed only well-formed messages that refer to existing keys.',
  ['ecc/curve.go', PR, JS, 'util/bytehelper/byte.go', CI, BU, GC, GB, 'cipher/cbc.go', 'provision/cipher.go'], [('length and nil checks before use', 'ecc/curve.go:DecodePoint, serialize/proto.go, util/bytehelper/byte.go:SplitThree')],
  ['return (not panic) of New*FromBytes, Decrypt, DecryptMessage, groups Decrypt/Process, provision.Decrypt'])
p('S06', 'Both ends of a new session derive the same keys from all of theirs',
  'A session set up from a prekey bundle and the session the other side sets up from the resulting initial message have the same shared keys (each decrypts the other), exactly as the X3DH agreement with its identity, base, signed-prekey and optional one-time-prekey contributions defines them, and record each other\'s identity key and registration id. Changing any one of the participating private keys changes the shared keys, so that the other side cannot decrypt.',
  ['inputs', 'configurations'], 'All combinations, over small sets of keys and ids, of identity, base, signed prekey, present/absent one-time prekey on either side; each compared with an independent computation.',
  'Tests use one random set of keys, always with a one-time prekey, and only compare the library with itself.',
  [RA, BU, 'ratchet/sender.go', 'ratchet/receiver.go', 'kdf/hkdf.go'], [('X3DH', RA + ':CalculateSenderSession, CalculateReceiverSession'), ('session set-up', BU + ':ProcessBundle, processV3')],
  ['derived root/chain keys from ratchet.Calculate*Session', 'decryption of the first messages', 'identity keys and registration ids in the session records'])
p('S07', 'A bundle is used only if its identity key signed its signed prekey',
  'Processing a prekey bundle succeeds only if the bundle carries a signed prekey with a valid signature by the bundle\'s identity key and that identity is trusted for the address. If it fails for any reason, including failing randomness, nothing is stored: an existing session and recorded identity stay usable and unchanged, and no session appears where there was none.',
  ['inputs', 'fault_sequences'], 'All single-bit changes of signature, signed prekey and identity key, all mixes of parts of two users\' bundles, absent signed prekey, untrusted identity, each random read failing; with no session, an unacknowledged one and an established one in place.',
  'Tests process only honest bundles.',
  [BU, 'ecc/curve.go', 'ecc/sign_curve25519.go'], [('signature and trust checks before any store access', BU + ':ProcessBundle')],
  ['error returned by session.Builder.ProcessBundle', 'session and identity stores'])
p('S08', 'A one-time prekey is used by exactly one session, then gone',
  'When an initial message naming a one-time prekey is decrypted, that prekey and no other is deleted from the store, not before the new session has been stored; a message that is rejected deletes nothing, and repeated initial messages of the same session still decrypt after the deletion. Sessions are set up with and without a one-time prekey. Another initial message that names a deleted or unknown one-time prekey or signed prekey is rejected, the last-resort prekey (id 0xFFFFFF) and signed prekeys are never deleted, and a message that names no one-time prekey uses none.',
  ['histories', 'inputs'], 'All bounded histories of two initiators with the same, different or no one-time prekey (ids 0, 1, ordinary, last-resort) sending repeated, reordered, replayed and altered initial messages.',
  'Tests never check the prekey store and always use one ordinary one-time prekey.',
  [BU, CI, PR], [('prekey lookup', BU + ':processV3'), ('removal after the session is stored', CI + ':DecryptMessageReturnKey')],
  ['prekey and signed prekey store calls and contents'])
p('S09', 'No session is set up with an untrusted identity key',
  'Processing a bundle or an initial message whose identity key the identity store does not trust for that address fails and changes nothing. An identity key is recorded for an address only when a bundle with that (verified) key was processed, or a message authenticated with that key was decrypted or encrypted for that address, and then it is the key of that session, byte for byte.',
  ['histories', 'inputs'], 'All bounded histories of bundles and messages (genuine, from an impostor, altered) for two addresses under trust-on-first-use and deny-all stores.',
  'Tests never present a second identity key for an address.',
  [BU, CI], [('trust checks', BU + ':process, ProcessBundle'), ('recording', CI)],
  ['identity store calls and contents', 'errors returned'])
p('S10', 'Storing and reloading records is never observable',
  'Serializing any record (session with its archived states, single state, prekey, signed prekey) and loading it again gives a record that serializes to the same bytes and behaves the same: a user that reloads records from bytes at any moments produces and accepts exactly the same messages as one that keeps them in memory. In particular the loaded keys, ids, counters, timestamps, signatures, skipped message keys, pending prekey information (with or without a one-time prekey) and archived states equal the original ones.',
  ['histories', 'inputs'], 'All bounded histories, each executed with in-memory records and with reloads after every operation and at each single point, and the round trip of every record reached; boundary values of all ids, counters and timestamps.',
  'One test loads one fresh session and compares nothing.',
  [SE, ST, CH, 'state/record/prekey.go', 'state/record/signed_prekey.go', 'state/record/state_pending_prekey.go', 'state/record/state_pending_key_exchange.go', JS], [('structures of records', SE + ', ' + ST + ', ' + CH), ('JSON serializers', JS)],
  ['bytes from Serialize, records from New*FromBytes', 'transcripts of messages and results'])
p('S11', 'A crash at any storage call loses no session and repeats no key',
  'If the process stops before or after any single store call of an operation and restarts from what was stored, then every stored session is still usable in both directions, every message of the peer not yet decrypted can still be decrypted, except that the one being decrypted at the crash may instead count as already decrypted. No released ciphertext shares its message key with another one, and no message decrypts twice.',
  ['crash_points', 'histories'], 'Every prefix of the store calls of every operation in bounded histories, with up to two crashes, followed by a recovery phase that redelivers everything and exchanges messages both ways.',
  'No test interrupts an operation.',
  [CI, BU], [('order of store calls: state before release, session before prekey removal', CI + ':Encrypt, DecryptMessageReturnKey; ' + BU + ':ProcessBundle')],
  ['store calls', 'results after restart from the stored bytes'])
p('S12', 'No message key is used twice and counters are exact',
  'Within a session every message is encrypted under a fresh key: two messages of a user never carry the same pair of ratchet key and counter, and equal plaintexts never give equal ciphertexts. Counters count up from zero by one in each sending chain, a new chain starts exactly when the first message on a new ratchet key of the peer has been decrypted, and then the previous-counter field is the number of the last message of the preceding chain.',
  ['histories'], 'All bounded interleavings of sends, deliveries, rejected messages, failed operations and reloads by both users, across several ratchet steps and re-established sessions.',
  'Tests look only at plaintexts.',
  [CI, ST, 'keys/chain/key.go'], [('chain advance on every encryption', CI + ':Encrypt'), ('new sending chain on ratchet', CI + ':getOrCreateChainKey')],
  ['ratchet key, counter, previous counter and body of serialized messages'])
p('S13', 'Stored state does not reveal past messages (forward secrecy)',
  'After a message has been sent, its sender\'s stored records, and after it has been decrypted or given up (its chain or its skipped key was dropped), its recipient\'s stored records, no longer contain anything from which its key can be computed with the recorded traffic. For first messages this is claimed when the session was set up with a one-time prekey.',
  ['histories'], 'All bounded histories; after each step an attacker who gets all stored bytes of a user tries every key derivation of the protocol from every stored secret on every recorded message already processed.',
  'Tests never look at what is stored; the absence of a derivation has to hold in every reachable state.',
  [CI, ST, CH, 'keys/chain/key.go', BU], [('chain keys move forward, used message keys are removed', ST + ', ' + CI), ('one-time prekey removal', CI)],
  ['stored bytes of all records'])
p('S14', 'A session heals after its state was exposed',
  'If an attacker copies everything a user has stored at some moment and then only listens, then as soon as that user has decrypted a message on a new ratchet key of its peer and answered, the answer and everything after it, in both directions, cannot be decrypted from the copy and the recorded traffic. Ratchet key pairs are never reused.',
  ['histories'], 'All bounded histories, every moment of exposure, every later message; the attacker tries every key derivation of the protocol from the copied secrets.',
  'Tests never look at keys.',
  [CI, 'keys/root/key.go', 'ecc/curve.go'], [('fresh ratchet key pair mixed into the root key at each step', CI + ':getOrCreateChainKey')],
  ['stored bytes at the moment of exposure', 'later messages on the wire'])
p('S15', 'Limits on skipping, chains and archived sessions are exact',
  'A message up to 5000 ahead of the next expected one in its chain is accepted and one 5001 ahead is rejected without effect; of the messages skipped in a chain the 2000 latest stay decryptable and earlier ones do not. The five most recent chains of the peer stay usable, and the 40 most recently replaced sessions with the peer stay usable for decryption while older ones are forgotten, so memory is bounded.',
  ['histories', 'inputs'], 'All gaps around each limit, in each position (one jump, many small ones, first chain, later chain), and the outcome for every kept and dropped element.',
  'Tests skip at most a few messages and keep one session.',
  [CI, ST, SE], [('maxFutureMessages, maxMessageKeys, maxReceiverChains, archivedStatesMaxLength', CI + ', ' + ST + ', ' + SE)],
  ['accept/reject of messages around the limits', 'number of chains, keys and archived states in the stored record'])
p('S16', 'Re-established and simultaneous sessions converge',
  'When either or both users set up new sessions at any time (also both at once, also repeatedly), every message sent in any of the sessions still kept is decrypted, no session is lost, and once each user has decrypted one message of the other\'s latest choice of session and the network is quiet, both encrypt in the same session. A new session replaces the current one for sending and keeps the old one for receiving.',
  ['histories'], 'All bounded interleavings of session set-ups by both users, sends, and deliveries in any order.',
  'One test sets up one session in one direction; a second session never occurs.',
  [SE, CI, BU], [('archive and promotion of states', SE + ':ArchiveCurrentState, PromoteState'), ('trial decryption with archived states', CI + ':DecryptWithRecord')],
  ['plaintexts returned', 'session used by the messages on the wire'])
p('S17', 'Initial messages are sent until the peer answers, and carry the right ids',
  'From setting up a session with a bundle until the first message of the peer in that session is decrypted, every message sent is an initial message that carries the sender\'s registration id and identity key, the unchanged base key and exactly the one-time (or none) and signed prekey ids of the bundle; from then on every message is an ordinary one. The user that did not initiate never sends initial messages in that session.',
  ['histories', 'inputs'], 'All bounded interleavings, boundary prekey ids, with and without one-time prekey, reloads, rejected messages.',
  'The tests check the message type at two points of one script.',
  [CI, ST, 'state/record/state_pending_prekey.go', PM], [('pending prekey information', ST + ':SetUnacknowledgedPreKeyMessage, ClearUnackPreKeyMessage')],
  ['type and header fields of messages on the wire'])
p('S18', 'Sessions with different addresses never affect each other',
  'An operation for one address (user and device) reads and changes only the session and identity recorded for exactly that address: messages of a session never decrypt under another address\'s session, and failures, new sessions or deletion for one address leave all others as they were. Devices of one user have independent sessions.',
  ['histories', 'inputs'], 'All bounded interleavings of operations for three addresses sharing a user name or a device id, with every message offered to every address.',
  'Tests use one address per store.',
  [CI, BU, 'protocol/signal_protocol_address.go'], [('every store call is keyed by the remote address', CI + ', ' + BU)],
  ['address arguments of store calls, records per address, decryption results'])
p('S19', 'The session protocol interoperates with the Signal specification',
  'A user of this library and a peer that follows the Signal protocol (version 3: X3DH, double ratchet, HKDF labels, AES-CBC, MAC, protobuf wire format) byte for byte understand each other in every history: each decrypts everything the other sends and header fields, key derivations and wire encodings are those of the specification.',
  ['histories', 'inputs'], 'All bounded interleavings of sends, deliveries and set-ups between the library and an independent implementation, in both roles, with and without one-time prekey, payload lengths around block sizes.',
  'The tests only run the library against itself, so a change made consistently on both sides is invisible.',
  [CI, RA, SM, PM, PR, 'kdf/hkdf.go', 'keys/chain/key.go', 'keys/root/key.go', 'cipher/cbc.go'], [('key schedule and wire format', CI + ', ' + RA + ', ' + PR)],
  ['serialized messages and plaintexts'])
p('S20', 'A saved message key reopens exactly its message',
  'The message key returned when a message is decrypted opens that same message again at any later time, any number of times, to the same plaintext, without reading or changing the session. It is the key of that message only: it does not verify any other message, and the returned index is the message\'s counter.',
  ['histories'], 'All bounded histories; after every step all saved keys are applied to all messages.',
  'One test reopens one first message right after decrypting it.',
  [CI, 'keys/message/key.go'], [('returned message keys', CI + ':DecryptAndGetKey, DecryptMessageReturnKey, DecryptWithKey')],
  ['plaintext from DecryptWithKey, MAC verification with the returned key, session store'])
p('W01', 'Every message survives the wire unchanged, with either serializer',
  'For every ordinary, initial, group and group distribution message, parsing its serialized bytes gives a message with the same fields (version, ids including an absent one-time prekey id, registration id, counters, keys, ciphertext, tags) that serializes to the same bytes again, and for the binary serializer the bytes are those of the protocol\'s wire format. A parsed message keeps nothing of the buffer it was read from, and serializing gives fresh bytes. Messages of a version lower than 2 or higher than 3, or without their required fields, are refused.',
  ['inputs'], 'All combinations of boundary values of each field (0, 1, 127, 128, 255, 256, 2^16, 2^31, 2^32-1; absent and present; ciphertext lengths) for each message type and serializer.',
  'Tests serialize a few messages with small numbers and do not compare fields.',
  [PR, JS, SM, PM, SKM, SKD, 'serialize/protocol_whisper_text.pb.go'], [('serializers', PR + ', ' + JS), ('version and completeness checks', 'protocol/*.go')],
  ['bytes and accessors of messages'])
p('G01', 'Group messages decrypt for every member in any order',
  'Every member that has processed a sender\'s distribution message decrypts every message the sender encrypts from that point on (of a key received several times, from the point of the copy processed first) to exactly the bytes that were encrypted, whatever the order of arrival, loss, delay or the repeated arrival of distribution messages, and independently of other members, senders and groups, while it is at most 2000 ahead and among the 2000 latest skipped. Encrypting and asking for the distribution message again never change the key.',
  ['histories', 'inputs'], 'All bounded interleavings of creations, distributions (also repeated and late), sends and deliveries for two senders, two members, two groups; both serializers; both kinds of stores.',
  'One test sends in order from one sender to one receiver at a time.',
  [GC, GB, GS, GR, 'groups/ratchet/sender_chain_key.go'], [('sender chain and skipped keys', GC + ':getSenderKey')],
  ['plaintext returned by groups.GroupCipher.Decrypt'])
p('G02', 'A group message is decrypted at most once',
  'No group message is decrypted twice by the same member for the same sender, no matter what lies between: other messages, newer or repeated distribution messages of the same or another key, reloads from storage.',
  ['histories'], 'All bounded histories with re-deliveries and re-distributions.',
  'No test delivers a group message twice.',
  [GC, GS, GR], [('used keys are removed, chain moves forward', GC + ':getSenderKey'), ('state lookup by key id', GR + ':GetSenderKeyStateByID')],
  ['error on second delivery'])
p('G03', 'Only the sender can produce group messages that members accept',
  'A group message is accepted only if its key id, iteration, ciphertext and version are exactly what the holder of the sender\'s signing key signed; any altered message, a message of another sender, and a message made by a member who knows the chain key but not the signing key are rejected, and rejection changes nothing in the member\'s state. A member\'s state set up for receiving cannot be used to encrypt, also after it has been stored and reloaded.',
  ['inputs', 'histories'], 'All single-bit changes, truncations, field recombinations of messages and signatures; forgeries with full knowledge of the symmetric keys; all presentations to all sender states; in several states.',
  'Tests only decrypt genuine messages.',
  [GC, SKM, 'ecc/sign_curve25519.go', GS], [('signature check before use of the chain', GC + ':Decrypt, verifySignature')],
  ['plaintext or error from GroupCipher.Decrypt/Encrypt, stored sender key record'])
p('G04', 'Group members can read from when they joined, and nothing older',
  'What a distribution message obtained after n messages contains lets its receiver decrypt message n and later ones but none of the earlier ones, and a message already encrypted or decrypted, or whose skipped key or sender key was dropped because of the limits, cannot be decrypted from the sender\'s or the member\'s stored sender key records. A sender that starts a new key uses fresh key id, chain and signing keys, so a member without the new distribution message cannot read on.',
  ['histories'], 'All bounded histories with joins and new keys at every position; an attacker tries every derivation from everything stored.',
  'The test distributes at position 0 only and never looks at stored keys.',
  [GB, GC, GS, 'groups/ratchet/sender_chain_key.go', 'groups/ratchet/sender_message_key.go'], [('distribution message carries the current chain key', GB + ':Create'), ('one-way chain', 'groups/ratchet/sender_chain_key.go')],
  ['decryption results, stored bytes'])
p('G05', 'Limits on skipped group messages are exact',
  'A group message up to 2000 ahead of the next expected one is accepted and one 2001 ahead is rejected without effect; of the skipped messages the 2000 latest stay decryptable and earlier ones do not. A new distribution message never invalidates a sender\'s earlier keys that are among the 2000 latest.',
  ['histories', 'inputs'], 'All gaps around each limit, in one jump and in several, and the outcome for each kept and dropped message.',
  'Tests never skip a group message.',
  [GC, GS, GR], [('2000 in getSenderKey, maxMessageKeys', GC + ', ' + GS)],
  ['accept/reject around the limits, number of stored keys'])
p('G06', 'Storing and reloading sender key records is never observable',
  'Serializing a sender key record, a sender\'s own or a member\'s copy with any number of keys and skipped messages, and loading it gives a record that serializes to the same bytes and behaves the same, including that it stays a sending or a receiving one. A crash at any store call followed by a restart from the stored bytes never makes a key be used for two different messages, nor a message decrypt twice, nor an undelivered message undecryptable.',
  ['histories', 'crash_points'], 'All bounded group histories executed with and without reloads at every point; every store call as crash point.',
  'Tests never serialize a sender key record.',
  [GR, GS, 'groups/ratchet/sender_message_key.go', JS], [('sender key structures', GR + ', ' + GS)],
  ['bytes of records, transcripts'])
p('G07', 'Group messaging interoperates with the Signal specification',
  'Sender chain, message keys, signatures and wire encodings of group and distribution messages are exactly those of the Signal sender key protocol (version 3): an independent implementation understands every message of this library and the other way round, in every history, and iterations count up by one from the value in the distribution message.',
  ['histories', 'inputs'], 'All bounded interleavings of sends, distributions and deliveries between the library and an independent implementation in both roles.',
  'The test only runs the library against itself.',
  [GC, GB, SKM, SKD, PR, 'groups/ratchet/sender_message_key.go', 'groups/ratchet/sender_chain_key.go'], [('sender key schedule and wire format', 'groups/ratchet, ' + PR)],
  ['serialized messages and plaintexts'])
p('K01', 'Signatures verify exactly for the signed message and key',
  'A signature made with a private key over any message (any length, including empty) verifies with the matching public key, also in an independent implementation, and independent signatures verify here. After any change to the message, the signature or the key (other than the key\'s unused top bit), verification fails, verifying changes none of its inputs, and signing the same message twice with different randomness gives different signatures.',
  ['inputs'], 'Keys of both signs times message lengths around hash block sizes times all single-bit changes of signature, message and key; non-canonical scalars; cross products of keys and messages.',
  'Tests sign and verify one message with random keys; a sign-dependent or length-dependent fault shows only for some.',
  ['ecc/sign_curve25519.go', 'ecc/curve.go', 'ecc/edwards25519/edwards25519.go'], [('XEdDSA-style signing and verification', 'ecc/sign_curve25519.go')],
  ['ecc.CalculateSignature, ecc.VerifySignature'])
p('K02', 'Symmetric encryption round-trips and leaves its inputs alone',
  'Decrypting what was encrypted under the same 32-byte key and IV gives back the plaintext, for every length and whether the IV is passed or generated, and equals standard AES-256-CBC with PKCS#7 padding. Neither function changes the buffers it is given, nor memory beyond them, and ciphertexts whose length is not a positive multiple of the block size are refused with an error.',
  ['inputs'], 'All plaintext lengths 0..several blocks, buffer capacities, all ciphertext lengths, IV given or not, both variants of the functions.',
  'Tests reach it only through whole messages of a few fixed lengths and never look at the input buffers.',
  ['cipher/cbc.go', 'cipher/cipher.go'], [('AES-CBC and padding', 'cipher/cbc.go, cipher/cipher.go')],
  ['results and input buffers of cipher.EncryptCbc/DecryptCbc/Encrypt/Decrypt'])
p('K03', 'Displayed fingerprints agree on both sides and expose a changed key',
  'Both users see the same 60 decimal digits for the same two fingerprints, whichever of them is local. Changing any single one of the 30 bytes that are displayed of either fingerprint changes the text.',
  ['inputs'], 'All values of each displayed byte in several contexts, all orders, boundary values and equal prefixes.',
  'The test covers one pair.',
  ['fingerprint/display.go', 'util/bytehelper/byte.go'], [('sorted concatenation of 5-byte chunks', 'fingerprint/display.go')],
  ['fingerprint.Display.DisplayText'])
p('K04', 'Symmetric session agreement gives both users the same keys',
  'Two users that are online and exchange base keys calculate the same root and chain key from their halves of the same exchange, whatever the values of the keys, and exactly one of them takes the initiating role. Any other participant or any other base or identity key gives different keys.',
  ['inputs'], 'All pairs from a set of base keys that includes equal leading bytes and extreme values, times identity keys.',
  'No test calls it.',
  [RA, 'ratchet/symmetric.go'], [('role decision and X3DH', RA + ':CalculateSymmetricSession, isSender')],
  ['root and chain keys returned'])
p('K05', 'Provisioning envelopes open only intact and with the right key',
  'An envelope made for a device (version 1: X25519, HKDF, AES-CBC, HMAC) opens with that device\'s private key to exactly the enclosed text. Any change to version, IV, ciphertext, tag or public key (other than its unused top bit), any truncation, and any other private key (private keys being the same if X25519 clamps them to the same scalar) make it fail with an error.',
  ['inputs'], 'Plaintext lengths around block sizes, all single-bit changes and truncations of the envelope body, malformed containers, wrong keys.',
  'No test calls it.',
  ['provision/cipher.go'], [('MAC check before decryption', 'provision/cipher.go:Decrypt')],
  ['result of provision.Decrypt'])
p('K06', 'Generated keys are consistent, distinct and numbered as asked',
  'Every generated or recreated key pair has a clamped private key and the matching X25519 public key; prekeys generated from first to last id carry exactly those ids in order, each with its own key, and the last-resort prekey carries the id that is never deleted (0xFFFFFF); a generated signed prekey has the requested id and a signature that verifies with the identity key. Shared secrets computed from two pairs agree on both sides and equal X25519; key derivation equals HKDF-SHA256 for every input, salt and length.',
  ['inputs', 'configurations'], 'Boundary random inputs (all zero, all one, each single bit set or clear), id ranges, key pairs in all combinations, compared with an independent implementation.',
  'Tests generate random keys and only print them.',
  ['ecc/curve.go', 'util/keyhelper/key.go', 'kdf/hkdf.go', 'state/record/prekey.go', 'state/record/signed_prekey.go'], [('key generation', 'ecc/curve.go:GenerateKeyPair, CreateKeyPair; util/keyhelper/key.go')],
  ['generated keys, ids, signatures, shared secrets'])
p('E01', 'Keys are never made from missing or partial randomness',
  'Every private key and symmetric group key is made only of bytes actually delivered by the system\'s secure random source, all of them, even when it delivers in small pieces; each key uses its own bytes. When the source fails for good while a key that is needed is drawn during key pair generation, session set-up or decryption, the operation fails with an error; an operation that fails changes nothing.',
  ['fault_sequences', 'histories'], 'Every partition pattern of short reads and a failure at each single read, for every operation that draws randomness, in several states.',
  'In tests the source never fails nor reads short.',
  ['ecc/curve.go', 'util/keyhelper/key.go', CI, BU, 'cipher/cbc.go'], [('io.ReadFull and error propagation', 'ecc/curve.go:GenerateKeyPair')],
  ['errors, generated keys versus delivered bytes, stores'])
p('C01', 'Independent sessions can be used from different goroutines',
  'Operations on distinct sessions, users, groups, keys and messages may run at the same time and give exactly the results they give one after the other, in every interleaving and without data races, also when they share a serializer and the logger and use the library for the first time.',
  ['schedules'], 'All interleavings up to a preemption bound at every random read, store call, serializer call and log call of two to three goroutines with encrypt, decrypt, set-up, group, sign and verify operations; plus a race-detector run of the same bodies.',
  'Tests are sequential.',
  ['logger/logger.go', 'serialize/serializer.go', CI, 'ecc/curve.go', GC], [('no shared mutable state but the logger', 'logger/logger.go')],
  ['results of the operations; race detector reports'])
p('C02', 'Asynchronous calls complete exactly once with the synchronous result',
  'Each asynchronous signature, verification and identity key generation calls exactly one of its success or failure callbacks, exactly once, with what the synchronous call would have returned for the same inputs: success for a valid signature and failure for an invalid one. Concurrent calls do not mix up their inputs or results.',
  ['schedules', 'inputs'], 'All combinations of valid and invalid inputs for up to three concurrent calls, all orders of their callbacks under a controlled scheduler.',
  'One test waits for one success.',
  ['ecc/curve.go', 'util/keyhelper/key.go'], [('goroutine per call', 'ecc/curve.go:VerifySignatureAsync, CalculateSignatureAsync; util/keyhelper/key.go:GenerateIdentityKeyPairAsync')],
  ['callbacks of the completion object'])

p('L01', 'Warnings, errors and panics show no key material and no plaintext',
  'Whatever the library is given, what it says by itself - warnings and errors handed to the logger, texts of errors it returns, texts of panics, and anything it prints on its own - contains no six consecutive bytes of a private key, root, chain, cipher or MAC key, sender chain key or seed, shared secret, or of a message\'s plaintext, in raw, hexadecimal, base64 or decimal form. (Debug and info messages, which the default logger drops, are not meant.)',
  ['inputs', 'histories'], 'All operations, in histories of two users and of groups, with every message also damaged, repeated, misdirected and cut, damaged stored records and bundles; all texts searched for every 6-byte part of every secret that exists in the execution.',
  'Tests never look at what is logged, and errors are not asserted by text; a leak sits on an error path that only a particular bad message reaches.',
  [CI, BU, GC, GB, ST, 'protocol/signal_message.go', 'provision/cipher.go', 'logger/logger.go'], [('error texts and logger calls', CI + ':DecryptWithRecord, DecryptWithState; protocol/signal_message.go:verifyMac')],
  ['calls of the installed logger, errors, panics, standard streams'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
