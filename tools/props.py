"""The properties: single source for properties.jsonl and MANIFEST.json."""
NOTES = ('One checker (checker/, Go, x/tools go/ssa) is built by check.sh and run per property on /repo; '
         'nothing of iden3/go-iden3 is executed.  See DESIGN.md.')
MT = 'merkletree/merkletree.go'
P = [
 dict(id='C01', title='Merkle proofs bind root, key and value',
  statement='A Merkle proof is accepted for a root, key and value only when hashing the leaf (or the auxiliary leaf, or the empty leaf) together with the siblings of the proof, in the order given by the key bits and with the depth of the proof, gives exactly that root. An absence proof whose auxiliary leaf is the asked key itself is refused. Leaf hashes are separated from inner node hashes and every input of a hash takes part in it.',
  over=['inputs'], q='for every root, key, value and every proof object, however it was obtained',
  why='Tests verify proofs produced by honest trees and a few tampered ones; the space of forged proofs is unbounded.',
  files=[MT], mech=[('VerifyProof', MT), ('RootFromProof', MT), ('LeafKey, HashElems, HashElemsKey', 'merkletree/utils.go')],
  note='Every path of VerifyProof/RootFromProof/hash helpers is summarised, the fold loop by its generic iteration.'),
 dict(id='C02', title='Insert, lookup, proof and verification use one bit order',
  statement='Inserting an entry, looking it up, generating a proof for it and verifying that proof all go left or right by the same bit of the entry key at each level. A new leaf is placed next to the old one below their common path, never over it, and the inner nodes rebuilt on the way up keep the other child.',
  over=['inputs', 'histories'], q='for every pair of keys (common prefix of any length) and every tree reached by insertions',
  why='Tests insert a handful of keys; the orientation of the rarely taken branches (long common prefixes, last level) is not sampled.',
  files=[MT], mech=[('addLeaf, pushLeaf', MT), ('GenerateProof, GetDataByIndex', MT), ('RootFromProof', MT)],
  note='Decision tables for the insertion step, orientation rule at every descent.'),
 dict(id='C03', title='Lookups and generated proofs tell the truth about the tree',
  statement='A lookup returns data only from a leaf whose key is the asked one, found by walking from the chosen root, and reports absence only at an empty position, at a leaf of another key or below the last level. A generated proof claims existence, absence or an auxiliary leaf exactly in those cases and carries every non-empty sibling passed. Walking a tree visits both children of every inner node.',
  over=['inputs', 'histories', 'fault_sequences'], q='for every tree content, root, key and for every storage failure',
  why='Tests look up a few entries of small trees and never with a failing storage.',
  files=[MT], mech=[('GenerateProof', MT), ('GetDataByIndex, EntryExists', MT), ('Walk, SiblingsFromProof', MT)]),
 dict(id='C04', title='A tree changes only by complete, durable insertions',
  statement='A tree changes only when it is writable, its entry is inside the field, all rebuilt nodes and the new root record were written in one storage transaction and that transaction committed; the root in memory follows the commit. Nodes are stored under their own hash and never overwritten, snapshots are read-only views of a root known to the storage, and reopening a tree gives the last stored root, a fresh tree only when none is stored.',
  over=['histories', 'crash_points', 'fault_sequences', 'schedules'], q='for every sequence of insertions, imports and snapshots, every failing storage call and every crash point',
  why='Tests use a memory storage that never fails and do not crash between operations.',
  files=[MT], mech=[('AddEntry, addLeaf, addNode', MT), ('NewMerkleTree, Snapshot', MT), ('ImportTree', MT)]),
 dict(id='C05', title='Merkle data survives serialisation; malformed bytes are refused',
  statement='Nodes, proofs and tree dumps are written and parsed with the same layout, so parsing what was written gives the same object. Parsing never reads outside the given bytes, and refuses wrong lengths, unknown kinds, impossible depths and trailing bytes.',
  over=['inputs'], q='for every node, proof and byte string',
  why='Round trips are tested on a few objects, malformed bytes on hardly any.',
  files=[MT], mech=[('Node.Value, NewNodeFromBytes', 'merkletree/node.go'), ('Proof.Bytes, NewProofFromBytes', MT), ('serializeKV, deserializeKV', MT)]),
 dict(id='C06', title='Storage transactions are atomic and both backends agree',
  statement='A storage transaction writes nothing before Commit and then all of its puts under its prefix in one batch, the last put for a key winning, and a read inside the transaction sees its own puts first. Get, iteration, listing and prefixes behave the same in the memory and the LevelDB backend: absent keys give ErrNotFound, other failures are reported, keys handed to callbacks lose the prefix and are private copies. Shared maps of the memory backend are only touched under its lock.',
  over=['histories', 'crash_points', 'fault_sequences', 'schedules'], q='for every sequence of puts, gets, nested prefixes and commits, and every crash point',
  why='Tests run one short sequence per backend and never crash, fail or race.',
  files=['db/memory.go', 'db/leveldb.go', 'db/storageutils.go'], mech=[('MemoryStorageTx', 'db/memory.go'), ('LevelDbStorageTx.Commit, Iterate', 'db/leveldb.go'), ('KvMap', 'db/kvmap.go')]),
 dict(id='C07', title='A failure is never taken for success or for absence',
  statement='No function of the module reports success on a path where something it called has failed, except for the reviewed sentinel errors that are answers (no state on chain, no root stored, end of dump). A failure is not turned into one of the not-found errors either, unless the failure was itself the matching not-found error.',
  over=['fault_sequences', 'inputs'], q='for every function of the module and every failing call in it',
  why='Failing storage, network and parsing calls are hardly ever provoked by tests, and the packages verifier, issuer and holder have no test that runs offline.',
  files=['identity/issuer/issuer.go', 'merkletree/merkletree.go', 'db/leveldb.go'], mech=[('all functions returning error', 'whole module')],
  tech='module-wide error dataflow: every path of every function, with the branch facts about each error result', note='Tolerated failures are listed and reviewed one by one in rules/errs.go.'),
 dict(id='C08', title='Stored lists and values read back what was written',
  statement='A stored value or list entry is written as JSON under a key built from its own prefix and read back from the same key into the caller\'s object. Appending puts the entry, its place (the old length) and the new length (one more) into the same transaction or nothing at all; key, index and length keys never collide. A read failure, a missing entry or bad JSON is an error.',
  over=['histories', 'inputs', 'fault_sequences'], q='for every key, prefix, value and sequence of appends',
  why='Tests append a few entries under one prefix on a storage that never fails.',
  files=['db/storageutils.go'], mech=[('StorageList.Append, Get, GetByIdx', 'db/storageutils.go'), ('StorageValue, StoreJSON, LoadJSON', 'db/storageutils.go')]),
 dict(id='C09', title='Identifiers and identity states commit to what they stand for',
  statement='An identifier is type, genesis and the byte sum checksum of both, every parser refuses another length or a wrong checksum, and text, bytes and big integers give the same identifier back. The identity state is the Poseidon hash of the claims, revocation and roots tree roots in that order, the genesis identifier takes its bytes from that state, and the genesis claims are all in the claims tree before the root is taken.',
  over=['inputs'], q='for every identifier, malformed identifier and every set of genesis claims',
  why='Tests use a few fixed identifiers and one or two genesis claims.',
  files=['core/id.go', 'core/genesis/genesis.go', 'core/id.go'], mech=[('IDFromString, IDFromBytes, CheckChecksum', 'core/id.go'), ('IdenState', 'core/id.go'), ('CalculateIdGenesis', 'core/genesis/genesis.go')]),
 dict(id='C10', title='Claims and tree leaves survive serialisation in the fixed layout',
  statement='Every claim kind, its metadata and every leaf of the revocation and roots trees is written into the data slots at the documented bit positions and read back from the same ones, so that parsing gives the same header, flags, subject, expiration, version, nonce and payload. No field overlaps another, and flags and subject only occupy their slots when set.',
  over=['inputs'], q='for every claim of every kind and every metadata combination',
  why='Tests cover a couple of claims and flag combinations out of thousands.',
  files=['core/claims/claim.go', 'core/claims/claim_types.go'], mech=[('Metadata.Marshal, Unmarshal', 'core/claims/claim.go'), ('ClaimHeader', 'core/claims/claim.go'), ('Entry, NewClaim...FromEntry', 'core/claims')],
  tech='composition witnesses (marshal then unmarshal) added to the packages in memory and decided by value numbering and constant folding of bit positions', note='The witnesses are analysed, never executed.'),
 dict(id='C11', title='Text, JSON and byte codecs give back the whole value',
  statement='For each of the module\'s text, JSON, hexadecimal, base64, byte and big integer codecs, decoding what was encoded gives back the value, and decoding does not accept a string without its prefix or of another length. Swapping endianness reverses every byte, and equality looks at the whole value.',
  over=['inputs'], q='for every value and every malformed text',
  why='Tests encode a few values and hardly any malformed ones.',
  files=['common/common.go', 'merkletree/utils.go', 'merkletree/node.go'], mech=[('HexEncode, HexDecodeInto', 'common/common.go'), ('SwapEndianness, BytesToUint', 'common/common.go'), ('ElemBytes, Entry, Hash, Proof JSON', 'merkletree')],
  tech='composition witnesses (encode then decode) decided by value numbering'),
 dict(id='C12', title='An entry is read as a claim only when valid and of that type',
  statement='An entry becomes a claim of a type only when its claim type says so, an unknown type is an error, and any entry or text that is not a valid claim (outside the field, other length, bad subject text) is refused without a panic. A generic claim keeps header, metadata and payload, and a changed revocation nonce shows in the leaf it serialises to.',
  over=['inputs', 'histories'], q='for every entry and text, honest or not',
  why='Tests parse well formed claims of known types.',
  files=['core/claims/claim_types.go', 'core/claims/claim.go'], mech=[('NewClaimFromEntry', 'core/claims/claim_types.go'), ('ClaimGeneric, HexToClaimGeneric', 'core/claims'), ('Metadata.UnmarshalJSON', 'core/claims/claim.go')]),
 dict(id='C13', title='Issued claims get fresh, durable nonces; revocation covers them',
  statement='A claim enters the claims tree only with a revocation nonce no other claim of the identity got, and the counter is stored for good before the claim is added; when the counter is used up, or a step fails, no claim is issued and the claim keeps its nonce. Genesis claims get theirs from the same counter, and revoking a claim revokes every version of the nonce recorded for it in the tree. An identity that is genesis only refuses to issue and to revoke.',
  over=['histories', 'crash_points'], q='for every sequence of issued and revoked claims, failure and restart',
  why='Tests issue a handful of claims on storage that never fails, and never restart in between.',
  files=['identity/issuer/issuer.go', 'identity/issuer/noncegen.go', 'core/claims/revocationrootsleafs.go'], mech=[('UniqueNonceGen', 'identity/issuer/noncegen.go'), ('IssueClaim, RevokeClaim, Create', 'identity/issuer/issuer.go')]),
 dict(id='C14', title='State publication is a crash-safe state machine',
  statement='A state is sent to the chain only after it is durably recorded as the pending one, with a proof of the step from the state before it, at most one at a time, and as a first or a later state according to what is on chain; one that could not be sent is sent again unchanged. A pending state becomes the state on chain only when the chain holds it and its transaction has the configured number of confirmations; a chain that holds anything else is an error. What is in memory, in storage and published off chain always belongs to the same state.',
  over=['crash_points', 'fault_sequences', 'histories'], q='for every order of publications, syncs, failures of storage, chain or prover, and restarts',
  why='The tests of this package need files from the network, and only walk the path where nothing fails.',
  files=['identity/issuer/issuer.go'], mech=[('PublishState', 'identity/issuer/issuer.go'), ('SyncIdenStatePublic', 'identity/issuer/issuer.go')]),
 dict(id='C15', title='Credentials match the state known to be on chain',
  statement='An existence credential is given only for a claim that is, with this very value, in the claims tree of the state known to be on chain, and its proof, roots and state data all belong to that state; otherwise the error says whether there is no state on chain, the claim is not there yet, or it does not exist. The proof of a state transition is made from the identity\'s key, genesis proof and the two states and is verified before it is used. Signatures of the identity cover the whole prefix and message.',
  over=['inputs', 'histories'], q='for every claim and every history of issues, publications and syncs',
  why='Tests ask for a few credentials at a few moments.',
  files=['identity/issuer/issuer.go'], mech=[('GenCredentialExistence', 'identity/issuer/issuer.go'), ('GenZkProofIdenStateUpdate, GenIdOwnershipGenesisInputs', 'identity/issuer/issuer.go')]),
 dict(id='C16', title='An issuer loads what was stored and guards its state',
  statement='Creating an identity stores everything it needs, and its genesis state, in one transaction; loading it gives back exactly that, refuses to run without the services it needs, and syncs with the chain unless it is genesis only. No two parts of the identity share storage. Everything that changes is read and written under the identity\'s lock.',
  over=['histories', 'schedules', 'crash_points'], q='for every configuration, crash while creating, restart and concurrent use',
  why='Tests reload one identity and never use one concurrently.',
  files=['identity/issuer/issuer.go'], mech=[('Create, Load', 'identity/issuer/issuer.go'), ('rw, dbKey and dbPrefix', 'identity/issuer/issuer.go')]),
 dict(id='C17', title='Verifiers accept only credentials current on chain',
  statement='A verifier accepts a credential only when every proof in it (issuance, non revocation, roots) verifies for the claim, roots and state it comes with, those roots hash to the state read from the chain at that block, and the credential is as fresh as asked for. A zero-knowledge credential is accepted only when the proof verifies for public signals built from the state on chain, the asked issuer and claim data, all inside the field. Whatever fails is refused, with an error or a false, never with a panic on hostile proofs.',
  over=['inputs', 'histories'], q='for every credential, honest or forged, and every chain history',
  why='The tests of this package need files from the network; forged credentials are unbounded in number.',
  files=['components/verifier/verifier.go', 'core/proof/proof.go'], mech=[('VerifyCredentialValidity', 'components/verifier/verifier.go'), ('VerifyZkProofCredential', 'components/verifier/verifier.go')]),
 dict(id='C18', title='Holders build proofs only from public data that match the chain',
  statement='Published data are accepted only when both imported trees have the announced roots and all roots together hash to the state they are for; a holder uses them only for the state the chain reports for that issuer, and says so when the claim is revoked. Validity credentials and zero-knowledge inputs are made of the claim, the proofs, roots and siblings of exactly these trees and of the asked credential, under the names the circuit knows.',
  over=['inputs', 'histories'], q='for every credential, every published blob and every state of the chain',
  why='The tests of this package need files from the network; a server can publish anything.',
  files=['identity/holder/holder.go', 'components/idenpuboffchain/idenpuboffchain.go'], mech=[('HolderGetCredentialValidity, HolderGetCredentialProofInputs', 'identity/holder/holder.go'), ('NewPublicDataFromBlobs', 'components/idenpuboffchain/idenpuboffchain.go')]),
 dict(id='C19', title='The key store keeps keys encrypted, signs with the right key, wipes it',
  statement='Secret keys reach the storage only sealed under a key derived from the passphrase with a fresh salt and nonce, and a key comes back only with that passphrase and only under its own public key; adding one keeps all others, in memory and, in one step, on disk. The file is used only while its lock is held, and the lock is never left behind or shared. Signing uses the unlocked key that was asked for over prefix, date and message as verification does, and closing wipes every unlocked key.',
  over=['inputs', 'histories', 'schedules', 'crash_points', 'fault_sequences'], q='for every sequence of operations, passphrase, storage failure, crash while writing and concurrent use',
  why='Tests use one or two keys in one thread, with a storage that never fails.',
  files=['keystore/keystore.go'], mech=[('EncryptData, DecryptData', 'keystore/keystore.go'), ('KeyStore', 'keystore/keystore.go'), ('FileStorage', 'keystore/keystore.go')]),
 dict(id='C20', title='Published off-chain data are found again under their state',
  statement='Publishing puts both tree dumps, all roots and the state into one slot of the ring, in one transaction with the next slot, so that a reader sees all of one publication or nothing of it, and finds each of the last publications under its state, for every ring length. A state that is not there is reported as such only after looking at every slot. Readers ask the server for exactly the identity and state they want, and only a successful, valid answer is taken.',
  over=['inputs', 'histories', 'schedules', 'crash_points'], q='for every sequence of publications, ring length, crash, server answer and concurrent use',
  why='Tests publish a few states into rings of one length, without failures.',
  files=['components/idenpuboffchain/writerhttp/writerhttp.go', 'components/idenpuboffchain/readerhttp/readerhttp.go', 'components/httpclient/httpclient.go'], mech=[('Publish, GetPublicData', 'components/idenpuboffchain/writerhttp/writerhttp.go'), ('DoRequest', 'components/httpclient/httpclient.go'), ('GetPublicData, Publish', 'components/idenpuboffchain/local/local.go')]),
 dict(id='C21', title='Signatures bind message, length, date and signer',
  statement='The hash that is signed covers the message and its length, and with a date also the date; a signature is accepted only when the key recovered from it, for exactly that message and date, belongs to the given address. Signing and verifying agree byte by byte, so what an identity signs verifies and nothing else does. A signed time is accepted only while it is recent enough.',
  over=['inputs'], q='for every message, date, key and signature',
  why='Tests sign a few constant messages.',
  files=['crypto/signatures.go', 'crypto/hash.go', 'components/idensigner/idensigner.go'], mech=[('EthHash, VerifySigEthMsg, VerifySigEthMsgDate', 'crypto/signatures.go'), ('SignEthMsg, SignEthMsgDate', 'components/idensigner/idensigner.go')]),
 dict(id='C22', title='A nonce is valid once and until it expires',
  statement='A nonce that was added can be used at most once, whatever the number of concurrent users, and never after its time; one that is not there, was used or has expired is refused. Adding keeps every other nonce, and cleaning removes only nonces that have expired. All accesses hold the lock of the store.',
  over=['histories', 'schedules'], q='for every sequence of operations, time and concurrent use',
  why='Tests use a few nonces in one thread.',
  files=['utils/noncedb/nonce_db.go'], mech=[('NonceDb', 'utils/noncedb/nonce_db.go')]),
 dict(id='C23', title='States on chain are read and set as asked',
  statement='Reading a state asks the contract for exactly the given identity (and block), and reports "no state" apart from failures. Setting or initialising sends the genesis, old and new state, and every coordinate of the proof in the order the contract verifies. A transaction counts as confirmed only after a receipt that says it succeeded and the asked number of blocks; the local chain behaves the same, and keeps every state an identity had.',
  over=['inputs', 'histories', 'fault_sequences'], q='for every identity, state, proof, transaction outcome and history of the chain',
  why='No test talks to a chain; the local one is used in a few fixed sequences.',
  files=['components/idenpubonchain/idenpubonchain.go', 'eth/client.go', 'components/idenpubonchain/local/local.go'], mech=[('GetState, GetStateByBlock, InitState, SetState, TxConfirmBlocks', 'components/idenpubonchain/idenpubonchain.go'), ('CallAuth, WaitReceipt', 'eth/client.go'), ('IdenPubOnChain', 'components/idenpubonchain/local/local.go')]),
 dict(id='C24', title='Circuit files are used only when their hash is the expected one',
  statement='Proving key, verification key and witness calculator are read only from a file whose hash was found to be the expected one, and kept and handed out only when reading and parsing succeeded, each for itself and under the lock. A download becomes the file only as a whole, from a successful answer, in one step and by one process at a time; failures are reported. Proofs, inputs and public signals keep every number and its place when they are turned into numbers for the contract or into text.',
  over=['inputs', 'crash_points', 'fault_sequences', 'schedules'], q='for every file content, server answer, crash while downloading and concurrent use',
  why='Tests need the network for these files, and only ever see good ones.',
  files=['utils/zk/zk.go'], mech=[('ZkFiles', 'utils/zk/zk.go'), ('download, checkHash', 'utils/zk/zk.go'), ('ProofToBigInts, InputsToMapStrings, PubSignals', 'utils/zk/zk.go')]),
 dict(id='C25', title='Entries built from numbers, text or bytes hold every given value',
  statement='The constructors of entries and entry data put the value of their i-th argument, and nothing else, into slot i; input of the wrong length or that is not hex is refused, and nothing else is. Claim types and keys made from text are the last bytes of the hash of that text, numbered types are that number, and an element without its most significant byte is otherwise unchanged. A list of hex claims is read whole and in order, or refused.',
  over=['inputs'], q='for every number, text and byte string given',
  why='Tests try one row of small numbers and one name.',
  files=['merkletree/utils.go', 'core/claims/claim.go', 'core/claims/utils.go'], mech=[('NewEntryFrom*, BigIntsToData, HexsToData, IntsToData', 'merkletree/utils.go'), ('HashString, NewClaimType, ClearMostSigByte', 'core/claims/claim.go')]),
]
NA = []
