------------------------------- MODULE MC_Push -------------------------------
(* C05, C06, C07, C03: script elements.  All scripts up to a length over a set   *)
(* of telling bytes, all lists of up to three elements of telling lengths.        *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

Alpha == IF Prop = "C07" THEN {0, 1, 2, 81, 96, 106, 118, 169, 172, 174}
         ELSE {0, 1, 2, 3, 75, 76, 77, 78, 79, 81, 172, 255}
MaxLen == IF Prop = "C07" THEN (IF Deep THEN 5 ELSE 4) ELSE (IF Deep THEN 5 ELSE 4)
Few == {0, 1, 76, 78, 172}
Lens == {1, 2, 74, 75, 76, 77, 255, 256, 257} \cup (IF Deep THEN {65535, 65536, 65540} ELSE {})

Families == {<<"all", x, y>> : x, y \in Alpha} \cup {<<"short">>}
            \cup (IF Prop \in {"C07"} THEN {} ELSE {<<"list", n>> : n \in Lens} \cup {<<"long", c>> : c \in {1, 75, 76, 77, 78}})

Strings(S, n) == [1..n -> S]
Fill(n, k) == [i \in 1..n |-> (i * 7 + k) % 256]
\* prefix forms that declare n bytes, minimal or not, with m bytes following
Forms(c, n) == CASE c = 76 -> <<76, n % 256>> [] c = 77 -> <<77, n % 256, n \div 256>> [] c = 78 -> <<78, n % 256, n \div 256, 0, 0>>
                 [] OTHER -> <<c>>
Decl(c, n) == IF c = 76 THEN n % 256 ELSE IF c < 76 THEN c ELSE n
CasesOf(f) ==
  CASE f[1] = "all"   -> {<<"b", <<f[2], f[3]>> \o s>> : s \in UNION {Strings(Alpha, n) : n \in 0..(MaxLen - 2)}}
    [] f[1] = "short" -> {<<"b", s>> : s \in UNION {Strings(Alpha, n) : n \in 0..1}} \cup {<<"b", <<x>>>> : x \in 0..255}
    [] f[1] = "list"  -> {<<"l", <<Fill(f[2], 1)>> \o t>> : t \in {<<>>} \cup {<<Fill(n, 2)>> : n \in {m \in Lens : m < 300}}
                                                                   \cup {<<Fill(n, 2), Fill(m, 3)>> : n \in {1, 75, 256}, m \in {1, 76}}}
    [] f[1] = "long"  -> {<<"b", pre \o Forms(f[2], n) \o Fill(Max2(Decl(f[2], n) + d, 0), 5)>> :
                            pre \in {<<>>, <<81>>}, n \in {0, 1, 3, 75, 76, 255, 256, 300}, d \in {-2, -1, 0, 1, 2}}
                          \cup {<<"b", <<f[2]>> \o l \o Fill(3, 1)>> : l \in {<<255, 255, 255, 255>>, <<253, 255, 255, 255>>, <<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<251, 255, 255, 255>>}}

\* concatenation of the source of every element is the script
Source(e, b, o) == Slice(b, o, e.next - o)
RECURSIVE Walk(_, _, _)         \* offsets reached by reading element after element
Walk(b, o, n) == IF o >= Len(b) THEN o = Len(b) /\ n = 0
                 ELSE LET e == ElementAt(b, o) IN e.ok /\ n > 0 /\ e.next > o /\ Walk(b, e.next, n - 1)

LawB(b) ==
  LET r == Elements(b) n == Len(r.el)
      dirs == {i \in 1..n : ~r.el[i].op}
  IN
  /\ r.ok => Walk(b, 0, n)
  /\ ~r.ok => ~\E k \in 0..Len(b) : Walk(b, 0, k)
  /\ \A i \in 1..n : r.el[i].op => Len(r.el[i].d) = 1
  \* re-encoding: opcodes as they are, data with the shortest prefix, never longer; the same script iff all pushes are minimal
  /\ r.ok => LET c == Concat([i \in 1..n |-> IF r.el[i].op THEN r.el[i].d ELSE Push(r.el[i].d)])
             IN /\ Len(c) <= Len(b)
                /\ (\A i \in dirs : r.el[i].min \/ r.el[i].d = <<>>) /\ c = b => \A i \in dirs : r.el[i].min
                /\ (\A i \in dirs : r.el[i].min) => c = b
                /\ (\A i \in dirs : r.el[i].d # <<>>) =>
                     LET q == Elements(c) IN q.ok /\ [i \in 1..Len(q.el) |-> q.el[i].d] = [i \in 1..n |-> r.el[i].d]
  \* appending to a complete script does not change how its beginning reads
  /\ r.ok => LET q == Elements(b \o <<172>>) IN q.ok /\ Take(q.el, n) = r.el /\ Len(q.el) = n + 1
  \* text
  /\ r.ok /\ AllMinimal(b) => TextOK(ScriptText(b)) /\ TextScript(ScriptText(b)) = b
  /\ r.ok => Cardinality({i \in 1..Len(ScriptText(b)) : ScriptText(b)[i] = SPACE}) <= Max2(n - 1, 0)
  \* templates: the first three exclude each other; what looks like a key hash is one
  /\ Cardinality({k \in {"p2pkh", "p2sh", "p2pk"} : CASE k = "p2pkh" -> IsP2PKH(b) [] k = "p2sh" -> IsP2SH(b) [] OTHER -> IsP2PK(b)}) <= 1
  /\ IsMultisig(b) => r.ok /\ n >= 3 /\ b[Len(b)] = OP_CHECKMULTISIG

LawL(l) ==
  LET b == EncodeParts(l) r == Elements(b) IN
  /\ r.ok /\ Parts(b) = l /\ AllMinimal(b) /\ \A i \in 1..Len(l) : ~r.el[i].op
  /\ Len(b) = FoldLeft(LAMBDA a, x : a + Len(x) + (IF Len(x) <= 75 THEN 1 ELSE IF Len(x) <= 255 THEN 2 ELSE IF Len(x) <= 65535 THEN 3 ELSE 5), 0, l)
  /\ \A k \in {1, 2, 3, Len(l[Len(l)])} : k <= Len(l[Len(l)]) => ~Elements(Take(b, Len(b) - k)).ok
  /\ TextScript(ScriptText(b)) = b

Law(f, c) == IF c[1] = "b" THEN LawB(c[2]) ELSE LawL(c[2])

CallsOf(f, c) ==
  IF c[1] = "l" THEN
    LET l == [i \in 1..Len(c[2]) |-> PlanHex(c[2][i])] b == EncodeParts(c[2])
    IN IF Prop = "C05" THEN <<Call("push_enc", [l |-> l]), Call("push_rt", [l |-> l]), Call("push_dec", [b |-> PlanHex(Take(b, Len(b) - 1))])>>
       ELSE IF Prop = "C06" THEN <<Call("asm_to", [b |-> PlanHex(b)]), Call("asm_rt", [b |-> PlanHex(b)])>>
       ELSE <<Call("push_dec", [b |-> PlanHex(Take(b, Len(b) - 1))])>>
  ELSE LET h == PlanHex(c[2]) IN
       CASE Prop = "C05" -> <<Call("push_dec", [b |-> h])>>
         [] Prop = "C06" -> <<Call("asm_to", [b |-> h])>> \o (IF AllMinimal(c[2]) THEN <<Call("asm_rt", [b |-> h])>> ELSE <<>>)
         [] Prop = "C07" -> <<Call("classify", [b |-> h])>>
         [] OTHER -> <<Call("push_dec", [b |-> h]), Call("asm_to", [b |-> h]), Call("classify", [b |-> h])>>

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
