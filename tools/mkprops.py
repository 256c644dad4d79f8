#!/usr/bin/env python3-vt
# Writes /verif/properties.jsonl (the single source for property texts is this table).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
I=['inputs']; H=['inputs','histories']
p('C01','Base58 is a lossless bijection and rejects everything else',
 'Encoding any byte string to Base58 and decoding it gives back the same bytes. Every text that decodes successfully re-encodes to exactly that text, and every other text is answered with an error, never with a panic or a silently different value.',
 I,'every byte string of the stated lengths and every text (including characters outside the alphabet and over-large blocks)',
 'The tests decode fixed vectors; whole blocks, short last blocks and overflow boundaries form a 2^64-sized space per block.',
 ['crypto/base58/base58.go'],[('Encode / Decode','crypto/base58/base58.go')])
p('C02','Addresses round-trip, are canonical and detect corruption',
 'An address made from a network tag and two public keys turns into text and parses back to the same tag and keys, with a checksum that matches. A text is accepted only if it is the exact text of the address it yields, and keys that are not curve points or a wrong checksum are rejected with an error.',
 I,'every tag, key pair, checksum and input text of the supported lengths','Tests use a handful of real addresses.',
 ['cryptonote/address.go','crypto/base58/base58.go','crypto/key.go'],[('address encode/decode','cryptonote/address.go')])
p('C03','Transaction encoding is lossless and the size is exact',
 'Serialising any well-formed transaction and parsing the bytes gives an equal transaction and consumes exactly those bytes. The reported size equals the number of bytes written.',
 I,'every combination of version, unlock time, input/output kinds, amounts, key offsets, keys, signatures and extra, within the list-length bounds','Tests round-trip three real transactions.',
 ['cryptonote/transaction.go'],[('Serialize/Deserialize','cryptonote/transaction.go')])
p('C04','Block encoding is lossless for every block version',
 'Serialising any well-formed block of versions 1 to 5 (including merge-mined parents, signatures and transaction hash lists) and parsing the bytes gives an equal block with the same id.',
 I,'every field value of every block version within the list-length bounds','Tests parse four real blocks; no version 5 block is covered.',
 ['cryptonote/block.go','cryptonote/block_parent.go'],[('block codec','cryptonote/block.go'),('parent block codec','cryptonote/block_parent.go')])
p('C05','Parsing then re-encoding is stable',
 'If a byte string parses as a transaction or block, re-encoding the parsed value and parsing again yields an equal value, the same id, and the same bytes on the next encoding, so the node relays what it validated.',
 I,'every byte string within the length bounds that the parser accepts','Tests only use honest bytes.',
 ['cryptonote/transaction.go','cryptonote/block.go','cryptonote/block_parent.go'],[('deserialize/serialize','cryptonote/transaction.go')])
p('C06','Hostile transaction or block bytes never crash the node',
 'Parsing any bytes as a transaction or block either fails with an error or yields a value that can be hashed, sized, re-encoded and inspected; it never panics and never allocates far more memory than the input could justify.',
 I,'every byte string within the window bounds, with every length field taking any 64-bit value','Tests never feed malformed input.',
 ['cryptonote/transaction.go','cryptonote/block.go','cryptonote/block_parent.go','cryptonote/transaction_extra.go'],[('length fields','cryptonote/transaction.go'),('parent block','cryptonote/block_parent.go')])
p('C07','Hostile P2P payloads never crash the node',
 'Decoding any byte string as any P2P request, response or notification either fails with an error or yields a message; it never panics, loops forever or allocates memory out of proportion to the payload.',
 I,'every payload within the window bounds for every message type','Tests decode honest captures only.',
 ['encoding/binary/decode.go','p2p/command.go','p2p/notification.go'],[('portable storage reader','encoding/binary/decode.go')])
p('C08','P2P messages survive the wire unchanged',
 'Every P2P message the node can send, encoded and decoded again, gives an equal message, including empty and maximal lists, strings and numbers. The encoding is the portable storage format other implementations write, and their encoding of a message decodes to that message.',
 I,'every field value of every message type, list lengths within bounds','Tests compare two captures.',
 ['encoding/binary/encode.go','encoding/binary/decode.go','p2p/command_handshake.go','p2p/notification.go'],[('portable storage codec','encoding/binary')])
p('C09','Truncated P2P payloads are rejected',
 'A strict prefix of a valid encoded P2P message is answered with an error, never decoded into a message with missing or zero-filled fields.',
 I,'every message of the stated shapes and every cut point','No test truncates.',
 ['encoding/binary/decode.go'],[('readers','encoding/binary/decode.go')])
p('C10','Levin framing delivers exactly the framed message',
 'A packet written by one peer has the 33-byte header of the levin protocol and is read by the other with the same command, the same kind (request, notification or response) and the same payload whatever way the bytes are split. Wrong signatures, oversized or truncated packets give an error, and the reader never consumes bytes of the next packet. A request succeeds only with a response to the same command.',
 ['inputs','fault_sequences'],'every header value, payload and fragmentation within bounds','Tests do not exercise framing.',
 ['p2p/levin.go'],[('read/write','p2p/levin.go')])
p('C11','Transaction ids and signing hashes identify the content',
 'Two transactions with the same id are identical, and two transactions with the same prefix hash (the message that inputs sign) differ at most in their signatures, assuming the hash function has no collisions.',
 I,'every pair of transactions within the shape bounds','Injectivity is a statement about all pairs.',
 ['cryptonote/transaction.go'],[('Hash / prefix hash','cryptonote/transaction.go')])
p('C12','Block ids commit to the whole block',
 'Two blocks of the same version with the same id agree on header fields, on the coinbase transaction and on the ordered list of transaction hashes, assuming the hash function has no collisions.',
 I,'every pair of blocks within the shape bounds','Injectivity is a statement about all pairs.',
 ['cryptonote/block.go','crypto/hash.go'],[('HashingBytes/Hash','cryptonote/block.go'),('Merkle tree','crypto/hash.go')])
p('C13','Merkle roots match the CryptoNote tree hash',
 'The root of a list of hashes equals the CryptoNote tree hash for every list length, changing or swapping elements changes it, and a branch proof recomputes exactly the root it was built for.',
 I,'every list of hashes of the stated lengths, every branch and position','Tests use fixed vectors of few sizes.',
 ['crypto/hash.go'],[('MerkleRootHash','crypto/hash.go'),('TreeHashFromBranch','crypto/hash.go')])
p('C14','Block storage returns exactly what was stored',
 'A block is stored exactly if the given info belongs to it (same hash and index) and neither its hash nor its index is taken; a rejected push changes nothing. After any sequence of pushes the top is the stored block with the highest index, every stored block is found under its hash and its index with its own info, and nothing else is found.',
 H,'every sequence of pushes within the stated length','Existing tests do not touch the storage.',
 ['cryptonote/storage_memory.go'],[('PushBlock and lookups','cryptonote/storage_memory.go')],[('indexes','hash->block, index->hash, index->info')])
p('C15','Adding a block is atomic and extends the chain by one',
 'Adding a block either fails and leaves every observable of the chain unchanged, or succeeds and makes exactly that block the new top with index, cumulative difficulty, generated coins and transaction count advanced by that block. Adding the same block again is refused.',
 H,'every candidate block and raw transaction list within bounds on every explored chain state','No test adds a block.',
 ['cryptonote/chain.go','cryptonote/storage_memory.go'],[('AddBlock','cryptonote/chain.go')])
p('C16','Only blocks that follow the consensus header rules are accepted',
 'A block is accepted exactly if it links to the top block, has the scheduled version (a version 2 parent of at most 1 and at most 2048 bytes for merge-mined versions), a timestamp neither below the median of the previous blocks of the window nor beyond the future limit, and a coinbase with one base input of that height, the exact unlock height, non-overflowing, non-zero outputs to valid keys and from height 500000 on at most 1024 bytes of extra; a version 5 coinbase has one key output and no merge-mining tag and the block a valid signature of that key.',
 H,'every header and coinbase field value on every explored chain state','Needs all field values against all states.',
 ['cryptonote/chain.go','config/network.go'],[('validateBlock','cryptonote/chain.go')])
p('C17','Block contents must match the header and pay the exact reward',
 'A block is accepted exactly if the supplied raw transactions are the ones named in its header, in that order, without duplicates or trailing bytes, each valid, and the coinbase pays exactly the emission reward for the size of the block (penalised against the median of the last 100 sizes) plus the fees.',
 H,'every set of raw transactions and coinbase amounts within bounds','No test adds a block.',
 ['cryptonote/chain.go','config/network.go'],[('AddBlock','cryptonote/chain.go')])
p('C18','The block version schedule is a deterministic step function',
 'For every height the network prescribes exactly one block version, the same on every call, never decreasing with height and changing exactly at the published upgrade heights.',
 I,'every 32-bit height, every map iteration order','4 billion heights; map iteration order is random.',
 ['config/network.go','config/params.go'],[('GetBlockMajorVersion','config/network.go')])
p('C19','Block rewards follow the emission curve and size penalty',
 'The base reward is a 2^-18 share of what is left of the 10^19 unit supply, or 2% of the coins generated so far divided by the blocks of a year (360 a day) once that share or what is left falls below one coin. A block no larger than the median (at least the full-reward zone of its version) is paid in full; between once and twice the median M a block of size S gets amount*S*(2M-S)/M^2 rounded down, applied to the base reward and to the fees alike; a larger block is refused. The coins emitted are the reward minus the fees. (Median sizes below 2^31 bytes.)',
 I,'every version, median, size, generated-coins and fee value (64-bit)','Arithmetic over 64-bit values with 128-bit intermediates.',
 ['config/network.go','utils/math.go'],[('GetBlockReward','config/network.go')])
p('C20','Difficulty retargeting follows the published algorithms',
 'The difficulty of a block follows the algorithm of the version of that block. For every history of timestamps and cumulative difficulties the next difficulty equals the algorithm of the block version (version 1: the CryptoNote average over 360 blocks less 60 outliers at each end, rounded up; version 2: work over time of 17 blocks; version 4: LWMA-2 below height 300000 and LWMA-3 from there; version 5: LWMA-1 with a restart at height 700000), never crashes on hostile timestamps and from version 2 on respects the minimum of 100000. Only versions 1 and 2 may answer zero, which refuses the block, and only when the work does not fit 64 bits.',
 I,'every timestamp and difficulty history within the window bounds','Timestamps are attacker-chosen; tests have none.',
 ['config/network.go','cryptonote/difficulty.go'],[('NextDifficulty','config/network.go'),('window selection','cryptonote/difficulty.go')])
p('C21','Transactions cannot create money',
 'A transaction passes validation only if its outputs sum without overflow to at most the sum of its inputs and its fee, exactly the difference, is at least the minimum prescribed for the height and the size of its extra (fusion transactions pay none); the fees of a block add up exactly.',
 I,'every amount and every input/output combination within bounds','64-bit sums with overflow corner cases.',
 ['cryptonote/transaction_validator.go','cryptonote/transaction.go'],[('validator','cryptonote/transaction_validator.go')])
p('C22','No key image or output is spent twice within a block',
 'Two inputs with the same key image, in one transaction or in two transactions of one block, never both pass validation; an input may not name the same output twice and is not refused for naming distinct ones; outside the checkpoint zone key images outside the prime-order subgroup are rejected.',
 H,'every pair of inputs and transactions within bounds','Tests do not cover the validator.',
 ['cryptonote/transaction_validator.go'],[('spent key images','cryptonote/transaction_validator.go')])
p('C23','Mixin, fusion and extra-size rules are enforced as published',
 'The mixin of a transaction is the largest ring size of its key inputs and must be within the limits for the height. A transaction counts as fusion exactly if it has at least 12 inputs, at least 4 times as many inputs as outputs, and its outputs are the sorted digit decomposition of the sum of its inputs (below height 266000 with every input at least the dust threshold, up to height 216000 with a size of at most 300000 bytes). Larger extra costs a larger fee from the heights on that prescribe it.',
 I,'every ring size, amount, height and extra length within bounds','Untested.',
 ['cryptonote/transaction_validator.go','config/network.go'],[('mixin','cryptonote/transaction_validator.go'),('IsFusionTransaction','config/network.go')])
p('C24','Checkpoints pin block hashes and forbid deep reorganisation',
 'A height is inside the checkpoint zone iff it is at most the highest checkpoint; a block at a checkpointed height is accepted iff its hash is the checkpoint, any other height is not restricted; an alternative block is refused if it is genesis, at or below the last checkpoint the chain has passed, or more than ten blocks deep outside the zone, and allowed otherwise; no call deadlocks.',
 H,'every set of checkpoints, height and hash within bounds','Tests cover a few literal cases; one method deadlocks untested.',
 ['config/checkpoints.go'],[('checkpoint store','config/checkpoints.go')])
p('C25','Amount decomposition preserves the amount',
 'Splitting any amount into digit chunks and dust preserves the sum, every chunk is a single decimal digit times a power of ten, the dust is the longest run of low digits whose value is within the threshold, and amount classification agrees with that form.',
 I,'every 64-bit amount and threshold','Tests none.',
 ['cryptonote/utils.go','cryptonote/chain.go'],[('DecomposeAmountIntoDigits','cryptonote/utils.go')])
p('C26','Wide arithmetic is exact',
 'The 64x64 multiplication returns the exact 128-bit product and the 128-by-32 division returns the exact quotient, for every operand.',
 I,'every operand','128-bit operand space.',
 ['utils/math.go'],[('Mul128, Div128p32','utils/math.go')])
p('C27','Median, clamp and slice helpers are exact for every input',
 'The median is the middle value or the floor of the mean of the middle two, with no overflow, clamping returns a value inside the interval, and the sortedness, uniqueness and reversal helpers agree with their definitions.',
 I,'every slice of the stated lengths with any 64-bit values','Tests check one list each.',
 ['utils/math.go','utils/slices.go'],[('helpers','utils/math.go')])
p('C28','Field arithmetic equals arithmetic modulo 2^255-19',
 'Decoding, encoding, adding, subtracting, negating, multiplying, squaring and conditionally moving curve field elements gives the value modulo 2^255-19 that the operands represent, with a unique canonical 32-byte encoding and no integer overflow for operands in the permitted range (also when the result replaces an operand); the sign is the parity of that encoding and the zero test holds exactly for zero.',
 I,'every 32-byte string and every pair of field elements in range','256-bit operand space; carries fail on rare operands.',
 ['crypto/edwards25519/edwards25519.go'],[('Fe*','crypto/edwards25519/edwards25519.go')])
p('C29','Scalar arithmetic equals arithmetic modulo the group order',
 'Reducing, adding, subtracting, multiply-adding and multiply-subtracting scalars gives the canonical value modulo the prime group order for every operand, canonical or not; the scalar check accepts exactly the canonical scalars and the zero test exactly zero.',
 I,'every 32 or 64-byte string operand','512-bit operand space.',
 ['crypto/edwards25519/edwards25519.go'],[('Sc*','crypto/edwards25519/edwards25519.go')])
p('C30','Signatures, ring signatures and derived keys are sound and complete',
 'A signature is accepted exactly if its scalars are canonical, the challenge is not zero, the key is a point, and the challenge is the hash of the message, the key and a commitment that is not the neutral element. A ring signature is accepted exactly if it has one part with canonical scalars for each key, keys and key image are points, the image is in the prime-order subgroup (where that is asked for), and the challenges add up to the hash of the message and the recomputed commitments; nothing panics. Generated signatures are canonical and accepted, and wrong arguments are refused. Key images, key derivations (the same on both sides) and derived public and secret keys follow the CryptoNote definitions and belong together.',
 I,'every message, key and nonce for rings within the size bounds, honest and forged signatures of the listed kinds','Tests use fixed vectors and random tampering.',
 ['crypto/signature.go','crypto/key.go','crypto/key_derivation.go'],[('Check / CheckRingSignature','crypto/signature.go')])
p('C31','Sync requests every missing block once in bounded batches',
 'Given any list of block ids announced by a peer, the node requests the missing blocks in order, in batches of 128 (the protocol limit; the last one may be smaller), neither losing nor duplicating one, skipping those that became known meanwhile. When none is missing any more it asks for the rest of the chain, or is in step with the peer if there is none. Announcements that are empty, start at an unknown block or end above the total height are refused and nothing is requested.',
 H,'every announced list length and batch boundary','Needs a peer; untested.',
 ['p2p/peer.go','p2p/node.go'],[('request batching','p2p/peer.go')])
p('C32','Only blocks that were requested are accepted from a peer',
 'A block delivered by a peer is processed only if it was requested from that peer and parses; every request is answered at most once and completely. A delivery with any other block, with a missing one, with another number of transactions than its blocks list, or with a height below the announced one is refused as a whole: the connection is shut down and neither the chain nor any file changes.',
 H,'every response to every request set within bounds','Needs a hostile peer; untested.',
 ['p2p/node.go','p2p/notification_response_get_objects.go'],[('response handling','p2p/node.go')])
p('C33','Handshake admits only compatible peers of the same network',
 'A handshake succeeds exactly if the network id matches and the peer version is at least the minimum supported version, in both directions; otherwise the peer is refused and gets no answer. An outgoing connection answers no handshake, and a connection takes one handshake only.',
 I,'every version, network id and peer list','Untested.',
 ['p2p/peer.go','p2p/node.go','p2p/command_handshake.go'],[('handshake','p2p/peer.go')])
p('C34','Peer lists stay disjoint and consistent',
 'A peer is on at most one of the white and grey lists at any time, moving it keeps exactly one copy, and listing returns exactly the stored peers.',
 H,'every sequence of peer store operations within bounds','Needs histories.',
 ['p2p/peerstore.go'],[('peer store','p2p/peerstore.go')])
p('C35','The sparse chain describes the chain from top to genesis',
 'The sparse chain starts with the top block, then lists the stored blocks one, two, four, eight and so on blocks below the top, in strictly decreasing height, and always ends with genesis (listed once); it lists nothing else.',
 H,'every chain length within bounds','Needs chains.',
 ['cryptonote/chain.go'],[('BuildSparseChain','cryptonote/chain.go')])
p('C36','Group operations implement the Edwards25519 curve law',
 'Point addition, subtraction, doubling and conversion follow the Ed25519 group law for every pair of points in any representation. Encoding gives the canonical y coordinate and the parity of x, and decoding accepts exactly the canonical encodings of points. Multiplying any point or the base point with any scalar below 2^255, or two of them at once, gives that multiple; the subgroup test accepts exactly the points of the prime-order subgroup, and the point of a hash is the one the Elligator map defines.',
 I,'every point and scalar; the digits of double multiplications within bounds','Tests use fixed vectors.',
 ['crypto/edwards25519/edwards25519.go'],[('Ge*','crypto/edwards25519/edwards25519.go')])
p('C37','Transaction extra is parsed exactly',
 'Parsing the extra field returns exactly the padding, public key, nonce and merge-mining tag that the bytes encode, and rejects unknown tags, oversized padding or nonces and truncated fields with an error, never a panic.',
 I,'every extra byte string within the length bounds','Tests parse a few real extras.',
 ['cryptonote/transaction_extra.go'],[('ParseExtra','cryptonote/transaction_extra.go')])
p('C38','Sync data moves a connection to the right state',
 'When a peer tells its top block the connection is synchronised if the block is known (waiting for the pool right after the handshake, normal later) and has to synchronise if it is not; a peer whose unknown top is deeper behind than the unlock window and inside the checkpoint zone is refused and gets no answer. The height of the peer is noted. Before the handshake sync data changes nothing, during a synchronisation it only updates the height. A timed sync is answered once with the height, top and peer list of the node. A request for the chain is accepted exactly if it ends with our genesis block, and what a node asks with is its sparse chain.',
 H,'every height, top block, checkpoint and connection state','Needs a peer and a tall chain; untested.',
 ['p2p/node.go','p2p/command.go','p2p/notification_request_chain.go'],[('processSyncData','p2p/node.go'),('handleNotification','p2p/node.go')])
p('C39','Only well-formed transactions are accepted',
 'A transaction is accepted only if it has inputs, all of them key inputs naming at least one output, and its outputs have nonzero amounts (single decimal digits times a power of ten from height 700000 on) and targets that are a key on the curve, or multisignature targets with keys on the curve and no more required signatures than keys. The outputs of a coinbase obey the same rules but for the digits. Nothing else about kinds and keys makes a transaction or coinbase be refused.',
 I,'every kind, amount, key validity, number of signatures and height within the size bounds','Tests cover no malformed transaction.',
 ['cryptonote/transaction_validator.go','cryptonote/chain.go'],[('validateInputs','cryptonote/transaction_validator.go'),('validateOutputs','cryptonote/transaction_validator.go'),('validateBlock','cryptonote/chain.go')])
p('C40','Above the checkpoints only authorised inputs and proven blocks count',
 'Above the last checkpoint a transaction is accepted exactly if none of its key images is spent and each input carries as many signatures as outputs it names, forming a ring signature over the prefix hash valid for exactly the keys of these outputs (looked up by amount and absolute index); unknown or locked outputs refuse it. A block above the last checkpoint is accepted only with proof of work for the difficulty that is then counted; inside the zone the checkpoints decide alone. An output with an unlock time is spendable from one block before that height on, or one block time before that time.',
 I,'every answer of the output database, checkpoint, height and unlock time within the ring bounds','The lookups are placeholders, so tests cannot reach it.',
 ['cryptonote/transaction_validator.go','cryptonote/chain.go'],[('validateTransactionInputExpensive','cryptonote/transaction_validator.go'),('addBlock','cryptonote/chain.go'),('IsTransactionSpendTimeUnlocked','cryptonote/chain.go')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
