------------------------------- MODULE Prims -------------------------------
(***************************************************************************)
(* Primitive functions that the specification takes as given.  TLC         *)
(* evaluates them through the Java class java/Prims.java (an independent   *)
(* implementation: it shares no code with libsv/libsv).  The hash          *)
(* functions are also specified in TLA+ from first principles in           *)
(* Sha2.tla / Ripemd.tla, and MC_Hash.tla checks that both agree.          *)
(*                                                                         *)
(* A "byte string" is a sequence over 0..255 everywhere in the             *)
(* specification; text is the byte string of its characters.              *)
(***************************************************************************)
LOCAL INSTANCE Sequences
LOCAL INSTANCE Naturals

Undefined == CHOOSE x \in {} : TRUE

SHA256(b)        == Undefined   \* FIPS 180-4 SHA-256, 32 bytes
RIPEMD160(b)     == Undefined   \* RIPEMD-160, 20 bytes
HMACSHA512(k, b) == Undefined   \* HMAC-SHA-512, 64 bytes

(* secp256k1.  A public key is its 33-byte compressed encoding.            *)
PubFromPriv(k)            == Undefined  \* k: 32 bytes big-endian in 1..n-1
ValidPub(p)               == Undefined  \* is p a compressed point on the curve?
AddTweak(p, t)            == Undefined  \* p + t*G compressed; <<>> if t >= n or infinity
EcdsaVerify(p, d, der)    == Undefined  \* der is a strict-DER, low-S signature of the 32-byte digest d under p

EcdsaSign(k, d)           == Undefined  \* a signature EcdsaVerify accepts (for models: judges nothing recorded)

(* Hints for MC_Curve, which checks them: a root y of x^3 + 7 (or of its         *)
(* negation, where that has none) modulo p; the inverse of a modulo n.           *)
RootHint(x)  == Undefined
InvHint(a)   == Undefined

(* Test cases: EmitLine(s) appends the line s to the file $CASES, if set.   *)
EmitLine(s)  == TRUE
PlanHex(b)   == Undefined     \* as Hex, without shortening

(* Binding of recorded values (JSON strings) to byte strings.              *)
(*   B("00ff")      = <<0, 255>>                                            *)
(*   B("61(00*3)62") = <<97, 0, 0, 0, 98>>      (run-length notation)       *)
(*   Hex(<<0,255>>) = "00ff";  beyond 2048 bytes Hex gives "#len:sha256",   *)
(*                    which the driver writes for long values too.          *)
B(s)     == Undefined
Hex(b)   == Undefined
IsHexArg(s) == Undefined      \* is s the hex form of a byte string (of at most 2048 bytes)?
SameVal(a, b) == a = b        \* FALSE, not an error, when a and b have different types
(* Ascii("abc") = <<97,98,99>>,  Text(<<97>>) = "a"                         *)
Ascii(s) == Undefined
Text(b)  == Undefined
=============================================================================
