------------------------------ MODULE PushData ------------------------------
(* Script elements: opcodes and data pushes.                                  *)
EXTENDS Bytes

OP_PUSHDATA1 == 76
OP_PUSHDATA2 == 77
OP_PUSHDATA4 == 78

PushPrefix(n) ==        \* shortest prefix for n bytes of data
  IF n <= 75 THEN <<n>>
  ELSE IF n <= 255 THEN <<OP_PUSHDATA1, n>>
  ELSE IF n <= 65535 THEN <<OP_PUSHDATA2>> \o LE(n, 2)
  ELSE <<OP_PUSHDATA4>> \o LE(n, 4)

Push(d) == PushPrefix(Len(d)) \o d
EncodeParts(parts) == Concat([i \in 1..Len(parts) |-> Push(parts[i])])

(* The element that starts at offset o of b (o < Len(b)).                     *)
(*   ok: it is complete; op: it is an opcode (one byte that pushes no data)    *)
LenWidth(c) == IF c = OP_PUSHDATA1 THEN 1 ELSE IF c = OP_PUSHDATA2 THEN 2 ELSE IF c = OP_PUSHDATA4 THEN 4 ELSE 0
ElementAt(b, o) ==
  LET c == b[o + 1]
      w == LenWidth(c)
      rest == Len(b) - o - 1
      bad == [ok |-> FALSE, op |-> FALSE, d |-> <<>>, next |-> Len(b), min |-> FALSE]
  IN IF c = 0 \/ c > OP_PUSHDATA4 THEN [ok |-> TRUE, op |-> TRUE, d |-> <<c>>, next |-> o + 1, min |-> TRUE]
     ELSE IF w > rest THEN bad
     ELSE LET n == IF w = 0 THEN c ELSE CapLE(Slice(b, o + 1, w), rest)
          IN IF n > rest - w THEN bad
             ELSE [ok |-> TRUE, op |-> FALSE, d |-> Slice(b, o + 1 + w, n), next |-> o + 1 + w + n,
                   min |-> n > 0 /\ Slice(b, o, 1 + w) = PushPrefix(n)]

\* [ok, el: sequence of elements]; one step per byte, i: bytes seen, o: offset of the next element
Elements(b) ==
  LET st == FoldLeft(LAMBDA s, x :
              IF s.i < s.o THEN [s EXCEPT !.i = @ + 1]
              ELSE LET e == ElementAt(b, s.o)
                   IN IF e.ok THEN [i |-> s.i + 1, o |-> e.next, ok |-> s.ok, el |-> Append(s.el, e)]
                      ELSE [i |-> s.i + 1, o |-> e.next, ok |-> FALSE, el |-> s.el],
              [i |-> 0, o |-> 0, ok |-> TRUE, el |-> <<>>], b)
  IN [ok |-> st.ok, el |-> st.el]
Parts(b) == LET e == Elements(b) IN [i \in 1..Len(e.el) |-> e.el[i].d]
AllMinimal(b) == LET e == Elements(b) IN e.ok /\ \A i \in 1..Len(e.el) : e.el[i].min
=============================================================================
