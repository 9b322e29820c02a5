------------------------------ MODULE Coinbase ------------------------------
(* Coinbase transactions split around the extra nonces, and block headers.     *)
EXTENDS ScriptTemplates, TxCodec, Address

EXTRA == 12                                        \* bytes of extra nonce
MAXSCRIPT == 100
CoinbaseData(height, text) == Take(<<3>> \o Take(height, 3) \o text, Min2(4 + Len(text), MAXSCRIPT - EXTRA))
CoinbaseOuts(value, witness, wallet, minerId) ==
  <<Out(value, P2PKH(AddressHash(wallet)))>>
  \o (IF witness = <<>> THEN <<>> ELSE <<Out(ZERO64, UnHex(witness))>>)
  \o (IF minerId = <<>> THEN <<>> ELSE <<Out(ZERO64, minerId)>>)
\* the transaction for extra nonces x (12 bytes)
CoinbaseTx(height, value, witness, text, wallet, minerId, x) ==
  [ver |-> U32(1), lt |-> ZERO32,
   ins |-> <<In(ZeroTxid, MAX32, CoinbaseData(height, text) \o x, MAX32, NONE, ZERO64)>>,
   outs |-> CoinbaseOuts(value, witness, wallet, minerId)]
CoinbaseOK(witness, wallet) == AddressOK(wallet) /\ IsHex(witness)

Header(ver, prev, root, time, bits, nonce) == ver \o Rev(prev) \o root \o time \o bits \o nonce
=============================================================================
