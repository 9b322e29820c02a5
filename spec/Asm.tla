-------------------------------- MODULE Asm --------------------------------
(* Script text: opcode names and hex pushes separated by single spaces.       *)
EXTENDS PushData, Opcodes

SPACE == 32
ElementText(e) == IF e.op THEN OpName[e.d[1]] ELSE HexText(e.d)

RECURSIVE TrimL(_)
TrimL(t) == IF t # <<>> /\ t[1] = SPACE THEN TrimL(Tail(t)) ELSE t
Trim(t) == Rev(TrimL(Rev(TrimL(t))))

\* text of a script whose elements are complete
ScriptText(b) ==
  LET el == Elements(b).el
      sp == [i \in 1..Len(el) |-> IF i = 1 THEN ElementText(el[i]) ELSE <<SPACE>> \o ElementText(el[i])]
  IN Trim(Concat(sp))

Tokens(t) == SelectSeq(Split(t, SPACE), LAMBDA x : x # <<>>)
TokenOK(x) == Text(x) \in AllNames \/ IsHex(x)
TokenBytes(x) == IF Text(x) \in AllNames THEN <<OpValue[Text(x)]>> ELSE Push(UnHex(x))
TextOK(t) == LET k == Tokens(t) IN \A i \in 1..Len(k) : TokenOK(k[i])
TextScript(t) == LET k == Tokens(t) IN Concat([i \in 1..Len(k) |-> TokenBytes(k[i])])
=============================================================================
