#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles, statements and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Transaction serialisation is exactly the Bitcoin wire format",
 "Serialising any transaction yields exactly: 4-byte little-endian version, minimal CompactSize input count, each input as byte-reversed 32-byte previous txid, 4-byte index, CompactSize-prefixed unlocking script (length 0 when there is none) and 4-byte sequence, CompactSize output count, each output as 8-byte value and CompactSize-prefixed locking script, and 4-byte locktime. "
 "The hex form is the lower-case hex of those bytes and the transaction id is the byte-reversed hex of their double SHA-256. "
 "The 'cleared inputs' serialisation has the same layout with every unlocking script emptied, except that the selected input carries the supplied script.",
 ["inputs"], "every version, locktime, txid, index, sequence, amount (full 64 bits), every number of inputs and outputs and every script length, in particular both sides of each CompactSize boundary; absent as well as empty scripts",
 "Tests serialise four fixed transactions (one of them without any assertion), all with tiny counts and scripts; no test covers counts or lengths >= 253, large amounts, nil scripts, or the cleared-inputs form.",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go", "utils/ByteManipulation.go", "crypto/Hash.go"],
 [("field-by-field append", "transaction/Transaction.go:toBytesHelper"), ("input/output encoders", "transaction/input/Input.go:ToBytes, transaction/output/Output.go:ToBytes")],
 ["ToBytes", "ToString", "GetTxID", "ToBytesWithClearedInputs", "Input.ToBytes", "Output.ToBytes"])

prop("C02", "Parsing recovers exactly the serialised transaction and nothing else",
 "Parsing a well-formed serialisation, as bytes or hex, gives a transaction whose every field equals what was serialised, and re-serialising a canonical encoding reproduces it byte for byte; inputs and outputs parsed on their own report exactly how many bytes they occupy and ignore what follows. "
 "Byte strings that are truncated anywhere, carry trailing bytes, declare more inputs, outputs or script bytes than are present, or are not hex, are rejected with an error and give no transaction.",
 ["inputs"], "every byte string: all well-formed encodings (including non-minimal CompactSize counts), every truncation and extension of them, and arbitrary corruptions",
 "Tests parse a handful of good transactions; no test parses a truncated, extended or corrupted one, and none has a count or length beyond one byte.",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go"],
 [("offset-threading parse", "transaction/Transaction.go:NewFromBytes"), ("length checks", "transaction/input/Input.go:NewFromBytes, transaction/output/Output.go:NewFromBytes")],
 ["NewFromBytes", "NewFromString", "input.NewFromBytes", "output.NewFromBytes"])

prop("C03", "Hostile or malformed input is rejected, never a crash or a hang",
 "Every entry point that decodes, parses, classifies or validates data from outside (transactions, inputs, outputs, variable-length integers, script elements, ASM text, hex strings, script template queries, addresses, BIP276 strings, Electrum redeem scripts, compact difficulty bits, Merkle proofs, ciphertexts, 32-byte hashes), and every call that takes an input index or describes an input or output as text, returns normally - with an error or a negative answer when the data is bad - for every argument. "
 "None of them panics, fails to terminate, or accepts data whose declared lengths exceed what is present.",
 ["inputs"], "every byte string and every string, in particular empty, one-byte, truncated and length-field-corrupted ones, and indexes beyond the end",
 "Only six tests feed bad data, each one fixed string; lengths near 2^16, 2^32 and 2^64, empty scripts, empty pushes and truncated length prefixes are never tried.",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go", "utils/ByteManipulation.go", "script/OpPushdata.go", "script/Script.go", "script/RedeemScript.go", "script/address/Address.go", "script/address/AddressValidation.go", "script/address/BIP276.go", "block/Difficulty.go", "block/GetMerkleBranches.go", "crypto/Encryption.go"],
 [("length checks before slicing", "all decoders"), ("index checks", "transaction/Transaction.go, transaction/SignatureHash.go")],
 ["every exported decoder, classifier and validator"])

prop("C04", "Variable-length integers are minimal and decode to what was encoded",
 "Encoding an unsigned 64-bit number gives the unique minimal CompactSize form (1, 3, 5 or 9 bytes with prefix none, fd, fe, ff, little-endian), and decoding any CompactSize form, minimal or not and followed by any other bytes, gives back the number and the exact number of bytes it occupies.",
 ["inputs"], "all 2^64 values and every trailing context",
 "No test calls the decoder directly and the encoder is only printed, for one value; boundaries 252/253, 65535/65536, 2^32-1/2^32 and the 9-byte form are untested.",
 ["utils/VarInt.go"], [("width selection", "utils/VarInt.go:VarInt"), ("prefix dispatch", "utils/VarInt.go:DecodeVarInt")],
 ["VarInt", "DecodeVarInt"])

prop("C05", "Push-data encoding is minimal by length and decoding inverts it",
 "Encoding data elements gives, for each, the shortest push prefix for its length (direct up to 75 bytes, then 1-, 2- and 4-byte length forms, little-endian) followed by the data, in order; decoding a script splits it into exactly its opcodes (one-byte elements) and pushed data, so decoding an encoding of non-empty elements returns those elements. "
 "A script whose last push declares more bytes than remain is rejected with an error, whichever prefix form is used; non-minimal prefixes are decoded according to the length they declare.",
 ["inputs"], "every list of elements of every length (around 75/76, 255/256, 65532..65536 and beyond 2^16) and every byte string as a script",
 "Tests decode five fixed short scripts and re-encode one of 9 bytes; no push longer than 255 bytes is decoded and no 4-byte form occurs.",
 ["script/OpPushdata.go", "script/Script.go"], [("prefix by length", "script/OpPushdata.go:GetPushDataPrefix"), ("element split", "script/OpPushdata.go:DecodeParts")],
 ["EncodeParts", "GetPushDataPrefix", "DecodeParts", "DecodeStringParts", "AppendPushData*"])

prop("C06", "Script text (ASM) and hex forms round-trip",
 "The ASM text of a script lists its elements in order separated by single spaces, each opcode by its name and each data push as lower-case hex, and reading that text back gives the same script for every script made of opcodes and non-empty minimal pushes; every opcode name is read as its own byte value. "
 "ASM text containing anything that is neither an opcode name nor hex is rejected, and the hex form of a script decodes to the same script.",
 ["inputs", "programs"], "every script of opcodes and minimal pushes (any length including one byte, any opcode value above the push range plus OP_0), and every text",
 "Tests convert one P2PKH script in each direction; five of 256 opcodes and one push are exercised.",
 ["script/Script.go", "script/Opcodes.go", "script/OpPushdata.go"], [("name tables", "script/Opcodes.go:opCodeStrings, opCodeValues"), ("tokenise", "script/Script.go:NewFromASM"), ("render", "script/Script.go:ToASM")],
 ["NewFromASM", "ToASM", "NewFromHexString", "ToString"])

prop("C07", "Script template queries recognise exactly their template",
 "A script is reported as pay-to-public-key-hash exactly when it is DUP HASH160 push-20 EQUALVERIFY CHECKSIG, as script-hash exactly when it is HASH160 push-20 EQUAL, as pay-to-public-key exactly when it is one pushed key (33 bytes starting 02/03 or 65 bytes starting 04/06/07) followed by CHECKSIG, as data exactly when it starts with RETURN or FALSE RETURN, and as multisig exactly when it decodes to a small-integer opcode (OP_0, OP_1..OP_16), any non-empty elements, a small-integer opcode and a final CHECKMULTISIG. "
 "A pushed byte is never mistaken for the opcode of the same value. The public key hash is extracted exactly from pay-to-public-key-hash scripts and is an error for any other script.",
 ["inputs"], "every byte string as a script, in particular each template with any single byte changed, dropped, duplicated or appended",
 "Each query has one positive test and none has a negative one.",
 ["script/Script.go", "script/OpPushdata.go"], [("fixed-offset and element checks", "script/Script.go:Is*, GetPublicKeyHash")],
 ["IsP2PKH", "IsP2SH", "IsP2PK", "IsData", "IsMultisigOut", "GetPublicKeyHash"])

prop("C08", "Script and output constructors build exactly the promised template",
 "Each constructor yields exactly its template: P2PKH scripts and outputs carry the HASH160 of the given key, the given 20-byte hash or the hash inside the given address; hash-puzzle outputs are HASH160 <hash160 of secret> EQUALVERIFY followed by the P2PKH script; data outputs are FALSE RETURN followed by one push per part and value 0; P2PKH unlocking scripts push signature-plus-flag then public key; amounts are carried unchanged. "
 "Appending to a script adds exactly the corresponding bytes after what was there. Malformed hex, a hash that is not 20 bytes (P2PKH) or an invalid address is an error, and a failed append leaves the script unchanged.",
 ["inputs", "histories"], "every key, hash, address, secret, data part list (any count, any lengths including 0 and above 75, 255, 65535), amount, and every sequence of appends",
 "Each constructor is tested on one value with short data; multi-size push forms, empty parts, wrong-length hashes and amounts above 2^32 are not.",
 ["script/Script.go", "script/UnlockingScript.go", "transaction/output/Output.go"], [("template assembly", "script/Script.go:NewP2PKH*, transaction/output/Output.go:New*"), ("append", "script/Script.go:Append*")],
 ["NewP2PKHFrom*", "NewP2PkhFromPubKeyHash", "NewP2PKHFromAddress", "NewHashPuzzle", "NewOpReturn*", "NewP2PKHUnlockingScript", "Append*"])

prop("C09", "Signature hash follows the replay-protected algorithm for every flag",
 "For every transaction, input index and signature-hash flag byte the digest is the byte-reversed double SHA-256 of: version, hash of all outpoints (zero with ANYONECANPAY), hash of all sequences (zero with ANYONECANPAY, SINGLE or NONE), the input's outpoint, its previous locking script with length, its previous amount, its sequence, hash of all outputs (SINGLE: of the output with the same index, or zero if there is none; NONE: zero), locktime, and the flag as 4 bytes. "
 "An index without an input, or an input without previous txid or previous script, is an error.",
 ["inputs", "configurations"], "every transaction shape, input index (including beyond the outputs and beyond the inputs), and all 256 flag values",
 "Three vectors, all with flag 0x41; SINGLE, NONE, ANYONECANPAY and every other flag combination are untested (the test file says so).",
 ["transaction/SignatureHash.go", "transaction/signature/sighash/SigHashFlag.go", "transaction/output/Output.go", "transaction/input/Input.go"],
 [("flag tests and preimage assembly", "transaction/SignatureHash.go:GetInputSignatureHash")],
 ["GetInputSignatureHash"])

prop("C10", "A signature covers exactly what its flag says, whatever is edited",
 "After any sequence of edits to a transaction (adding inputs or outputs, changing version, locktime, amounts, sequences, scripts, outpoints, signing or re-signing other inputs), a signature made earlier verifies if and only if nothing its flag covers has changed: own outpoint, previous script, previous amount, own sequence, version and locktime always; other outpoints unless ANYONECANPAY; other sequences only without ANYONECANPAY, SINGLE and NONE; all outputs, only the same-index output (SINGLE), or none (NONE). "
 "Unlocking scripts are never covered, so signing inputs in any order and any number of times gives signatures that are all valid together.",
 ["histories", "configurations"], "every edit history interleaved with signing, every flag, every signing order",
 "One test signs one input of one transaction once; no test edits after signing or signs more than one input.",
 ["transaction/SignatureHash.go", "transaction/signature/InternalSigner.go", "transaction/Transaction.go"],
 [("digest recomputed from current fields", "transaction/SignatureHash.go")],
 ["GetInputSignatureHash", "Sign", "SignAuto", "fields of the transaction"])

prop("C11", "Signing an input installs a valid signature and changes nothing else",
 "Signing input i gives it an unlocking script of exactly two pushes: a strict-DER, low-S ECDSA signature with the flag byte appended, valid for that input's signature hash under the signer's key, and the signer's compressed public key; an unspecified flag means ALL|FORKID. "
 "No other field of the transaction changes, and when signing fails (index without input, previous txid or script missing, external signer error) an error is returned and the transaction is unchanged. "
 "With an external signer, the transaction becomes exactly what that signer returned.",
 ["inputs", "histories"], "every transaction, index, key and flag, and repeated signing in any order, including failing attempts",
 "One signing test, on the success path, through the automatic variant only, with one input and the default flag.",
 ["transaction/Transaction.go", "transaction/signature/InternalSigner.go", "script/UnlockingScript.go", "transaction/SignatureHash.go"],
 [("sign and apply", "transaction/signature/InternalSigner.go:Sign"), ("replacement", "transaction/Transaction.go:Sign, ApplyUnlockingScript")],
 ["Sign", "ApplyUnlockingScript", "NewP2PKHUnlockingScript"])

prop("C12", "Automatic signing signs exactly the inputs its key can spend",
 "Automatic signing gives every input whose previous locking script is pay-to-public-key-hash for the signer's compressed key (and whose previous txid is known) a valid unlocking script, wherever it stands among the inputs, and leaves every other input and every other field exactly as it was. "
 "Repeating it, or running it with several keys in any order, leaves every input spendable by one of those keys validly signed.",
 ["inputs", "histories"], "every mix and order of own, foreign, non-P2PKH, missing and look-alike previous scripts; every key order",
 "One test with a single, matching input; no test has a second input, a foreign script or an unsignable one.",
 ["transaction/signature/InternalSigner.go", "script/Script.go", "transaction/Transaction.go"],
 [("key hash match per input", "transaction/signature/InternalSigner.go:SignAuto")],
 ["SignAuto"])

prop("C13", "Transaction building is ordered, complete and atomic on failure",
 "A new transaction has version 1, locktime 0 and no inputs or outputs; each successful add appends exactly one input or output carrying the given values (inputs added from a UTXO have the final sequence 0xffffffff and no unlocking script) after all earlier ones, and counts, lists and the total output amount (sum modulo 2^64) always reflect exactly what was added. "
 "An add that fails (bad script hex, invalid address) returns an error and leaves the transaction unchanged; attaching an unlocking script replaces just that input's script and is an error for an index without input. "
 "A transaction is coinbase exactly when it has one input, with all-zero previous txid, and index or sequence 0xffffffff.",
 ["histories", "inputs"], "every sequence of building calls, queries and edits, in any interleaving over several transactions",
 "Building is not tested at all (tests only parse); total and coinbase are checked on two fixed transactions each.",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go"],
 [("append-only lists", "transaction/Transaction.go:From, AddInput, AddOutput, PayTo"), ("derived queries", "transaction/Transaction.go:InputCount..IsCoinbase")],
 ["New", "From", "AddInput", "AddOutput", "PayTo", "InputCount", "OutputCount", "GetInputs", "GetOutputs", "GetTotalOutputSatoshis", "IsCoinbase", "ApplyUnlockingScript", "input.New", "input.NewFromUTXO"],
 state=[dict(name="Inputs, Outputs", meaning="ordered lists, append only", where="transaction/Transaction.go:Transaction")])

prop("C14", "Merkle branches and proofs reproduce the block's Merkle root",
 "For any non-empty list of transaction ids, folding the first transaction's hash with the computed branches gives the Bitcoin Merkle root of the list (last node duplicated on odd levels), with ceil(log2 n) branches. "
 "Evaluating a proof for the transaction at any position with its sibling hashes gives that same root in display byte order, and both evaluators agree on position 0; a position that does not fit the proof length, a negative position or non-hex data is an error.",
 ["inputs"], "every list length (odd, even, powers of two and one off), every position, every proof, including wrong-length proofs",
 "One fixed 6-branch proof is evaluated; branch computation and the coinbase fold have no test (the test file for branches never calls it).",
 ["block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go", "utils/ByteManipulation.go", "crypto/Hash.go"],
 [("level walk with duplication", "block/GetMerkleBranches.go:GetMerkleBranches"), ("index bits choose the side", "block/GetMerkleBranches.go:MerkleRootFromBranches"), ("left fold", "block/BuildMerkleRootFromCoinbase.go")],
 ["GetMerkleBranches", "MerkleRootFromBranches", "BuildMerkleRootFromCoinbase"])

prop("C15", "Assembled coinbase parts form a valid coinbase transaction",
 "Joining the two coinbase parts around any 12 bytes of extra nonce gives a well-formed transaction: version 1, one input with all-zero txid, index and sequence 0xffffffff and an input script of at most 100 bytes consisting of 03, the low three height bytes little-endian, the (possibly truncated) text and the extra nonces in order; outputs are the payout (exact value, P2PKH to the wallet), then the witness commitment output if given, then the miner-id output if given, both with value 0; locktime 0. "
 "The declared script length and output count always match the contents. An invalid wallet address or commitment that is not hex is an error.",
 ["inputs"], "every height, value, text length (around the 100-byte limit), commitment and miner-id presence and length (around 252/253 and 65535), extra nonce split",
 "No test calls these functions.",
 ["block/GetCoinbaseParts.go", "transaction/output/Output.go", "utils/VarInt.go"],
 [("part assembly", "block/GetCoinbaseParts.go:makeCoinbase1, makeCoinbase2, makeCoinbaseOutputTransactions"), ("join", "block/GetCoinbaseParts.go:BuildCoinbase")],
 ["GetCoinbaseParts", "BuildCoinbase", "transaction.NewFromBytes"])

prop("C16", "Block headers concatenate their fields in consensus order",
 "A built block header is the 4-byte little-endian version, the byte-reversed previous block hash, then Merkle root, time, bits and nonce exactly as given, in that order - 80 bytes for fields of their proper sizes.",
 ["inputs"], "every version and field value",
 "No test calls it.",
 ["block/BuildBlockHeader.go", "utils/ByteManipulation.go"], [("concatenation", "block/BuildBlockHeader.go")], ["BuildBlockHeader"])

prop("C17", "Compact difficulty bits expand to the exact target and difficulty",
 "For every compact encoding of a non-negative target below 2^256, the expanded target is mantissa * 256^(exponent-3) (dropping bytes shifted below zero) as a 64-digit hex string, the integer form is that number (negated when the sign bit is set), and the difficulty is the ratio of 0xffff*2^208 to that target within floating-point precision. "
 "Bits that are not exactly four hex bytes are an error everywhere, and a negative or oversized target has no hex form and is an error.",
 ["inputs"], "all 2^32 compact values and malformed strings",
 "Two valid values and one malformed string are expanded; three difficulties are computed; small exponents, large exponents, sign bits and wrong lengths are not tried.",
 ["block/Difficulty.go"], [("mantissa/exponent split", "block/Difficulty.go:ExpandTargetFromAsInt, ExpandTargetFrom"), ("ratio", "block/Difficulty.go:DifficultyFromBits")],
 ["ExpandTargetFrom", "ExpandTargetFromAsInt", "DifficultyFromBits"])

prop("C18", "Addresses encode, decode and validate consistently",
 "An address made from a public key or 20-byte key hash is the Base58Check encoding of the network byte (00 mainnet, 6f testnet) and the hash, with the hash reported in hex; reading such an address back gives the same string and hash. "
 "A string is accepted as an address, by parsing and by validation alike, exactly when it is the canonical Base58Check form of a 21-byte payload with one of those two network bytes: any wrong character, length, checksum, leading '1' count or network byte is rejected with an error, so a mistyped address never becomes a payment.",
 ["inputs"], "every key hash (in particular with leading zero bytes), both networks, and every string, in particular each single-character substitution, deletion, insertion and transposition of a valid address",
 "Four valid addresses, one short and one unsupported string are tried; no test has a wrong checksum, a hash with leading zeros or a surplus '1'.",
 ["script/address/Address.go", "script/address/AddressValidation.go", "script/Script.go"],
 [("Base58Check", "script/address/Address.go:Base58EncodeMissingChecksum, addressToPubKeyHashStr"), ("validation", "script/address/AddressValidation.go:validA58")],
 ["NewFromString", "NewFromPublicKey*", "Base58EncodeMissingChecksum", "ValidateAddress", "script.NewP2PKHFromAddress", "PayTo"])

prop("C19", "BIP276 strings round-trip and reject every corruption",
 "Encoding data with a prefix, network and version in 1..255 gives prefix, colon, two hex digits each of network and version, the data in hex and the first four bytes of the double SHA-256 of all that in hex; decoding such a string returns exactly the prefix, network, version and data that were encoded, for any data including none. "
 "A network or version outside 1..255 is refused by the encoder, and a string of any other shape or with a wrong checksum is refused by the decoder and by address validation (whether upper-case hex digits, or a prefix that is empty or spans lines, can be decoded is left open).",
 ["inputs"], "every prefix, network, version and data, and every altered string",
 "One encoding and one decoding with network = version = 1, where swapped fields and the number base cannot show; decoding results are only logged.",
 ["script/address/BIP276.go", "script/address/AddressValidation.go"], [("format", "script/address/BIP276.go:createBIP276"), ("regexp and checksum", "script/address/BIP276.go:DecodeBIP276")],
 ["EncodeBIP276", "DecodeBIP276", "ValidateAddress"])

prop("C20", "Multisig redeem scripts are canonical whatever the order of keys",
 "The redeem script is OP_m, the public keys in ascending byte order each with its push, OP_n, CHECKMULTISIG; it, its HASH160 and its address (Base58Check, version 05) are the same for every order in which the keys were added and every time they are asked for. "
 "Keys added from an extended key are its non-hardened BIP32 grandchild for the two-level path; paths of another length, hardened steps from an extended public key, invalid keys, m outside 2..16 or a 17th key are errors and leave the keys unchanged. "
 "An Electrum redeem script is accepted only when well formed with as many keys as it declares, and gives the same redeem script as adding its keys by hand.",
 ["histories", "inputs"], "every m, every set and insertion order of extended keys and paths, every Electrum script and corruption of it, repeated queries in any interleaving",
 "Four tests with the same two extended keys and path 0/0; no other m, n, path, or malformed Electrum script is tried.",
 ["script/RedeemScript.go", "utils/ByteManipulation.go", "script/address/Address.go"],
 [("sorting", "utils/ByteManipulation.go:SortByteArrays"), ("assembly", "script/RedeemScript.go:GetRedeemScript"), ("derivation", "script/RedeemScript.go:AddPublicKey, NewRedeemScriptFromElectrum")],
 ["NewRedeemScript", "AddPublicKey", "GetRedeemScript", "GetRedeemScriptHash", "GetAddress", "NewRedeemScriptFromElectrum"],
 state=[dict(name="PublicKeys", meaning="set of cosigner keys", where="script/RedeemScript.go:RedeemScript")])

prop("C21", "Calls never disturb their arguments, earlier results or other objects",
 "No call modifies a buffer, string list or object passed to it other than its receiver (the sorting helper may reorder the list it is given), and queries do not modify their receiver's visible fields either (building a redeem script may put its keys in canonical order). "
 "A parsed transaction, input or output keeps its value when the buffer it came from is reused, and editing one of its scripts in place or by appending affects no other script; what serialisation, hashing, number encoding, script, output and address making, target, Merkle, coinbase, header and encryption calls return (byte slices, lists, integers, scripts, outputs, addresses) stays unchanged by later calls, and can be overwritten freely without changing what any later call returns.",
 ["histories"], "every history of calls over several live objects, with argument buffers that have spare capacity and are reused",
 "Tests look only at the immediate result of one call on fresh exact-size buffers; sharing shows only in a later observation of a different object.",
 ["transaction/input/Input.go", "transaction/output/Output.go", "transaction/Transaction.go", "transaction/SignatureHash.go", "block/BuildMerkleRootFromCoinbase.go", "block/GetMerkleBranches.go", "block/GetCoinbaseParts.go", "crypto/Encryption.go", "utils/ByteManipulation.go", "utils/VarInt.go", "script/Script.go"],
 [("fresh slices", "all encoders"), ("copying on parse", "transaction/input/Input.go, transaction/output/Output.go")],
 ["all arguments, receivers and retained results after every call"])

prop("C22", "Concurrent use on distinct or read-only data equals sequential use",
 "Calls from several goroutines that work on different objects, or only query a shared transaction or script, return exactly what the same calls return when made one after another, with no data race, including when they share one signer; the library keeps no hidden state that one call can see of another.",
 ["schedules", "histories"], "every interleaving of independent calls from several goroutines",
 "No test uses a goroutine.",
 ["transaction/Transaction.go", "transaction/SignatureHash.go", "transaction/signature/InternalSigner.go", "crypto/Hash.go", "utils/VarInt.go", "script/Script.go", "script/address/BIP276.go", "block/Difficulty.go"],
 [("no package-level mutable state", "all packages")],
 ["results of all calls under concurrent execution", "Go race detector reports in library code"])

prop("C23", "Hash helpers match the standards and encryption round-trips",
 "The hash helpers compute SHA-256, double SHA-256, RIPEMD-160 and RIPEMD-160 of SHA-256 of any byte string exactly. "
 "Decrypting what was encrypted under the same key returns the original bytes, any number of times and in any order with other encryptions, for data of any length; each encryption uses a fresh random 16-byte prefix so equal plaintexts give different ciphertexts, and a ciphertext shorter than that prefix is an error.",
 ["inputs", "histories"], "every byte string (around hash block boundaries), every key size, every history of encryptions and decryptions",
 "Hash tests use one short string and the empty string; encryption has no test at all (its comments say so).",
 ["crypto/Hash.go", "crypto/Encryption.go"], [("hash composition", "crypto/Hash.go"), ("IV || CFB(base64)", "crypto/Encryption.go")],
 ["Sha256", "Sha256d", "Ripemd160", "Hash160", "Encrypt", "Decrypt"])

prop("C24", "Byte-order and comparison helpers are exact",
 "Reversing bytes or a hex string reverses byte order without altering bytes (an odd-length hex string is first padded with a leading zero) and reversing even-length data twice restores it; little-endian conversion places the 32-bit value in the first four bytes and zeros after; equality holds exactly for identical byte strings; sorting returns the same byte strings in ascending lexicographic order (a prefix before its extensions); a 32-byte hash decodes only from hex of at least 32 bytes, to its first 32 bytes.",
 ["inputs"], "every byte string, list of byte strings and hex string",
 "Only hex-string reversal is tested directly, on three strings.",
 ["utils/ByteManipulation.go"], [("helpers", "utils/ByteManipulation.go")],
 ["ReverseBytes", "ReverseHexString", "GetLittleEndianBytes", "Equals", "SortByteArrays", "Decode32Byte"])

prop("C25", "Hashrate estimates and their display are consistent",
 "The estimated hashrate is difficulty times 2^256 divided by the base target (bits 1d00ffff, or 207fffff for coins whose ticker starts with R) divided by the target seconds, within floating-point precision. "
 "The human-readable form shows the value scaled by the largest of 1, 10^3 (kH/s), 10^6 (MH/s), 10^9 (GH/s), 10^12 (TH/s), 10^15 (PH/s), 10^18 (EH/s), 10^21 (ZH/s) not exceeding it, with two decimals and the matching unit.",
 ["inputs"], "every ticker, difficulty, target time and magnitude",
 "Two estimates are formatted, exercising two of eight units and no boundary.",
 ["block/Difficulty.go", "utils/HumanHash.go"], [("ratio", "block/Difficulty.go:DifficultyToHashrate"), ("unit ladder", "utils/HumanHash.go")],
 ["DifficultyToHashrate", "HumanHash"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
