----------------------------- MODULE MC_SigHash -----------------------------
(* C09, C10: the signed message changes exactly when something the flag covers    *)
(* changes.  All flags, shapes with fewer, as many and more outputs than inputs,   *)
(* every input, every single edit of every field, every removal, insertion and     *)
(* exchange of inputs and outputs.  "Covered" is stated without the serialisation;  *)
(* SigPreimage is the message.                                                      *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

Id(k) == HexText([i \in 1..32 |-> (k * 37 + i) % 256])
TheIn(k) == In(Id(k), U32(k), <<k, 1>>, LE(16909060 + k, 4), <<P2PKH([i \in 1..20 |-> i + k])>>, LE(100000 + k, 8))
TheOut(k) == Out(LE(7000 + k, 8), <<81, k>>)
Shape(ni, no) == [ver |-> U32(2), lt |-> U32(77), ins |-> [i \in 1..ni |-> TheIn(i)], outs |-> [i \in 1..no |-> TheOut(i)]]

Shapes == IF Deep THEN {<<a, b>> : a \in 1..3, b \in 0..4} ELSE {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>}
Flags == IF Deep THEN 0..255
         ELSE {0, 1, 2, 3, 4, 31, 32, 33, 34, 35, 64, 65, 66, 67, 96, 97, 98, 99, 127, 128, 129, 130, 131, 160, 163, 192, 193, 194, 195, 224, 226, 227, 254, 255}
FlagGroup(k) == {f \in Flags : f % 16 = k}

SetIn(tx, i, in)  == [tx EXCEPT !.ins[i] = in]
SetOut(tx, i, o)  == [tx EXCEPT !.outs[i] = o]
Without(s, i) == Take(s, i - 1) \o Drop(s, i)
With(s, i, x) == Take(s, i - 1) \o <<x>> \o Drop(s, i - 1)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

\* <<edited transaction, where input idx (1-based) is now (0: gone)>>
Edits(tx, idx) ==
  LET ni == Len(tx.ins) no == Len(tx.outs)
      at(i) == IF i < idx THEN idx - 1 ELSE idx
  IN {<<tx, idx>>, <<[tx EXCEPT !.ver = U32(1)], idx>>, <<[tx EXCEPT !.lt = U32(78)], idx>>}
     \cup {<<SetIn(tx, i, [tx.ins[i] EXCEPT !.txid = Id(9)]), idx>> : i \in 1..ni}
     \cup {<<SetIn(tx, i, [tx.ins[i] EXCEPT !.vout = U32(9)]), idx>> : i \in 1..ni}
     \cup {<<SetIn(tx, i, [tx.ins[i] EXCEPT !.seq = MAX32]), idx>> : i \in 1..ni}
     \cup {<<SetIn(tx, i, [tx.ins[i] EXCEPT !.sat = U64(0)]), idx>> : i \in 1..ni}
     \cup {<<SetIn(tx, i, [tx.ins[i] EXCEPT !.unl = <<9, 9>>]), idx>> : i \in 1..ni}
     \cup {<<SetIn(tx, i, [tx.ins[i] EXCEPT !.prev = <<<<81>>>>]), idx>> : i \in 1..ni}
     \cup {<<SetIn(tx, i, [tx.ins[i] EXCEPT !.prev = NONE]), idx>> : i \in (1..ni) \ {idx}}
     \cup {<<SetOut(tx, i, [tx.outs[i] EXCEPT !.sat = U64(1)]), idx>> : i \in 1..no}
     \cup {<<SetOut(tx, i, [tx.outs[i] EXCEPT !.lock = <<81>>]), idx>> : i \in 1..no}
     \cup {<<[tx EXCEPT !.outs = Without(@, i)], idx>> : i \in 1..no}
     \cup {<<[tx EXCEPT !.outs = With(@, i, TheOut(9))], idx>> : i \in 1..(no + 1)}
     \cup {<<[tx EXCEPT !.outs = Swap(@, i, j)], idx>> : i \in 1..no, j \in 1..no}
     \cup {<<[tx EXCEPT !.ins = Without(@, i)], at(i)>> : i \in (1..ni) \ {idx}}
     \cup {<<[tx EXCEPT !.ins = With(@, i, TheIn(9))], IF i <= idx THEN idx + 1 ELSE idx>> : i \in 1..(ni + 1)}
     \cup {<<[tx EXCEPT !.ins = Swap(@, i, j)], IF idx = i THEN j ELSE IF idx = j THEN i ELSE idx>> : i \in 1..ni, j \in 1..ni}

Families == {<<s, i, k>> : s \in Shapes, i \in 1..3, k \in 0..15}
CasesOf(f) ==
  IF f[2] > f[1][1] THEN {}
  ELSE LET tx == Shape(f[1][1], f[1][2]) IN {<<fl, e>> : fl \in FlagGroup(f[3]), e \in Edits(tx, f[2])}

LawF(f, c) ==
  LET tx == Shape(f[1][1], f[1][2]) i == f[2] fl == c[1] e == c[2][1] j == c[2][2]
      a == SigPreimage(tx, i - 1, fl) b == SigPreimage(e, j - 1, fl)
  IN /\ CanHash(tx, i - 1) /\ CanHash(e, j - 1)
     /\ (a = b) <=> (Covered(tx, i - 1, fl) = Covered(e, j - 1, fl))
     \* what the property says, flag by flag
     /\ Len(a) = 4 + 32 + 32 + 36 + (1 + Len(tx.ins[i].prev[1])) + 8 + 4 + 32 + 4 + 4
     /\ Take(a, 4) = tx.ver
     /\ Slice(a, Len(a) - 8, 4) = tx.lt
     /\ Drop(a, Len(a) - 4) = <<fl, 0, 0, 0>>
     /\ (Slice(a, 4, 32) = ZERO256) <=> ANYONECANPAY(fl)
     /\ (Slice(a, 36, 32) = ZERO256) <=> (ANYONECANPAY(fl) \/ IsNone(fl) \/ IsSingle(fl))
     /\ Slice(a, 68, 36) = Outpoint(tx.ins[i])
     /\ (Slice(a, Len(a) - 40, 32) = ZERO256) <=> (IsNone(fl) \/ (IsSingle(fl) /\ i > Len(tx.outs)))
     \* unlocking scripts are never covered
     /\ LET u == [tx EXCEPT !.ins = [k \in 1..Len(tx.ins) |-> [tx.ins[k] EXCEPT !.unl = <<k, 9>>]]] IN SigPreimage(u, i - 1, fl) = a

Law(f, c) == LawF(f, c)

CallsOf(f, c) ==
  IF Prop = "C10"
  THEN \* sign, edit, verify: on one transaction
       <<>>
  ELSE <<Call("sighash", [tx |-> RTx(c[2][1]), i |-> c[2][2] - 1, f |-> c[1]])>>

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
