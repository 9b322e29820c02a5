------------------------------ MODULE MC_Conc ------------------------------
(* C22: threads on objects of their own, and on shared objects that they only   *)
(* read.  TLC interleaves their calls in every way; every call returns what it    *)
(* returns when its thread runs alone, and what remains is what the threads leave *)
(* when they run one after another.  Each combination of programs is written out  *)
(* as a group of concurrent cases for the driver.                                 *)
EXTENDS MC_Hist
VARIABLES progs,      \* thread -> its calls
          pc,         \* thread -> calls made
          res         \* thread -> results so far
cvars == <<w, g, h, progs, pc, res>>

Shared == <<E("tx_make", [id |-> "T", tx |-> RTx(ObjTx(1))]), E("tx_load", [id |-> "U", b |-> Hex(TxBytes(STx(2, 1)))]),
            E("s_new", [id |-> "S", b |-> Hex(P2PKH(H2))]), E("s_new", [id |-> "R", b |-> Hex(<<2, 9, 8, 106>>)]),
            E("signer", [id |-> "K", key |-> Hex(K1), flag |-> 65]), E("signer", [id |-> "Z", key |-> Hex(K1), flag |-> 0])>>
X(n, s) == Text(Ascii(s) \o <<48 + n>>)                 \* the object s of thread n
\* programs for thread n
Programs(n) ==
  {<<E("tx_bytes", [id |-> id]), E("tx_info", [id |-> id])>> : id \in {"T", "U"}}
  \cup {<<E("tx_sighash", [id |-> "T", i |-> i, f |-> f])>> : i \in {0, 1, 2}, f \in {65, 195}} \cup {<<E("tx_sighash", [id |-> "U", i |-> 0, f |-> 66])>>}
  \cup {<<E(q, [id |-> s])>> : q \in {"s_read", "s_asm", "s_classify"}, s \in {"S", "R"}}
  \cup {<<E("tx_make", [id |-> X(n, "t"), tx |-> RTx(ObjTx(n))]), E("tx_sign", [id |-> X(n, "t"), signer |-> k, i |-> 0]), E("tx_signauto", [id |-> X(n, "t"), signer |-> k])>> : k \in {"K", "Z"}}
  \cup {<<E("tx_new", [id |-> X(n, "t")]), E("tx_from", [id |-> X(n, "t"), txid |-> HT(Rep(9, 32)), vout |-> Hex(U32(1)), script |-> HT(P2PKH(H1)), sat |-> Hex(U64(50))]),
          E("tx_payto", [id |-> X(n, "t"), addr |-> Hex(AddressOf(H1, FALSE)), sat |-> Hex(U64(30))]), E("tx_bytes", [id |-> X(n, "t")])>>}
  \cup {<<E("tx_load", [id |-> X(n, "t"), b |-> Hex(TxBytes(STx(2, 2)))]), E("tx_edit", [id |-> X(n, "t"), f |-> "unl+", i |-> 0, v |-> "0a"]), E("tx_edit", [id |-> X(n, "t"), f |-> "lock^", i |-> 1, v |-> ""])>>}
  \cup {<<E("s_new", [id |-> X(n, "s"), b |-> ""]), E("s_push", [id |-> X(n, "s"), d |-> "0102"]), E("s_pushhex", [id |-> X(n, "s"), d |-> Hex(Ascii("ab"))]), E("s_read", [id |-> X(n, "s")])>>}
  \cup {<<E("rs_new", [id |-> X(n, "m"), m |-> 2]), E("rs_add", [id |-> X(n, "m"), xk |-> TLCGet(20)[1], path |-> Path(n, 1)]), E("rs_script", [id |-> X(n, "m")])>>}
  \cup {<<E("seal", [id |-> X(n, "c"), b |-> "000102", key |-> Hex(Rep(1, 16))]), E("unseal", [ct |-> X(n, "c"), key |-> Hex(Rep(1, 16))])>>}
Pure(i) == <<E(Table[i].op, Table[i].a)>>
Combos ==
  [setup : {Shared}, progs : {<<p, q>> : p \in Programs(1), q \in Programs(2)}]
  \cup (IF Deep THEN [setup : {Shared}, progs : {<<p, q, r>> : p \in {x \in Programs(1) : Len(x) > 2}, q \in Programs(2), r \in {x \in Programs(3) : Len(x) > 1}}] ELSE {})
  \cup {[setup |-> <<>>, progs |-> <<Pure(i), Pure(j)>>] : i, j \in 1..NS}
  \cup {[setup |-> Shared, progs |-> <<p, Pure(j)>>] : p \in {x \in Programs(1) : Len(x) > 2}, j \in {k \in 1..NS : Deep \/ k % 4 = 0}}
Small(c) == c.setup # <<>> \/ Deep \/ c.progs[1][1].op = c.progs[2][1].op \/ (Len(c.progs[1][1].op) + 3 * Len(c.progs[2][1].op)) % 4 = 0

AnswerC(ww, gg, e) == IF e.op \in StateOps THEN AnswerIn(ww, gg, e.op, e.a) ELSE Exp(e.op, e.a)
\* one call in world ww
After(ww, gg, e) == IF e.op \in StateOps THEN LET r == AnswerC(ww, gg, e) o == Step(ww, gg, e.op, e.a, r) IN [w |-> o.w, g |-> o.g, ok |-> o.ok, r |-> r]
                    ELSE [w |-> ww, g |-> gg, ok |-> TRUE, r |-> AnswerC(ww, gg, e)]
Alone(c, n) == FoldLeft(LAMBDA s, e : LET o == After(s.w, s.g, e) IN [w |-> o.w, g |-> o.g, r |-> Append(s.r, o.r)],
                        LET s == Run(c) IN [w |-> s.w, g |-> s.g, r |-> <<>>], progs[n])

InitC == \E c \in Combos : /\ Small(c)
                           /\ LET s == Run(c.setup) IN w = s.w /\ g = s.g
                           /\ h = c.setup /\ progs = c.progs
                           /\ pc = [n \in 1..Len(c.progs) |-> 0] /\ res = [n \in 1..Len(c.progs) |-> <<>>]
StepC(n) == /\ pc[n] < Len(progs[n])
            /\ LET o == After(w, g, progs[n][pc[n] + 1])
               IN /\ Assert(o.ok, <<"the specification refuses its own answer", progs[n], pc[n]>>)
                  /\ w' = o.w /\ g' = o.g /\ res' = [res EXCEPT ![n] = Append(@, o.r)]
            /\ pc' = [pc EXCEPT ![n] = @ + 1] /\ UNCHANGED <<h, progs>>
NextC == \E n \in 1..Len(progs) : StepC(n)

Again(p) == Concat([k \in 1..4 |-> p])
Done == \A n \in 1..Len(progs) : pc[n] = Len(progs[n])
\* at the end: the same results and the same world as for each thread alone
HoldsC == Done =>
  LET a == [n \in 1..Len(progs) |-> Alone(h, n)] IN
  /\ \A n \in 1..Len(progs) : res[n] = a[n].r
  /\ DOMAIN w = UNION {DOMAIN a[n].w : n \in 1..Len(progs)}
  /\ \A n \in 1..Len(progs) : \A id \in DOMAIN a[n].w : w[id] = a[n].w[id]
  /\ \A id \in DOMAIN Run(h).w : w[id] = Run(h).w[id]
  /\ EmitLine(ToJson([setup |-> h, threads |-> [n \in 1..Len(progs) |-> Again(progs[n])]]))
=============================================================================
