-------------------------------- MODULE Chars --------------------------------
(* Text as sequences of character codes (bytes): what the wire formats are made of. *)
EXTENDS Naturals, Sequences, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> 31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]

(* the codes of an ASCII string *)
Codes(s) == <<>> \o [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

(* the ASCII string of codes; other codes show up as ~ *)
Str(q) == LET ch(c) == IF c \in 32..126 THEN SubSeq(Printable, c - 31, c - 31) ELSE "~"
              RECURSIVE go(_, _)
              go(i, acc) == IF i > Len(q) THEN acc ELSE go(i + 1, acc \o ch(q[i]))
          IN go(1, "")

IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsLetter(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsDigit(c) \/ IsLetter(c)
Upper(q) == <<>> \o [i \in 1..Len(q) |-> IF IsLower(q[i]) THEN q[i] - 32 ELSE q[i]]
Lower(q) == <<>> \o [i \in 1..Len(q) |-> IF IsUpper(q[i]) THEN q[i] + 32 ELSE q[i]]
AllOf(q, P(_)) == \A i \in 1..Len(q) : P(q[i])
Without(q, c) == SelectSeq(q, LAMBDA x : x # c)
Rep(c, n) == <<>> \o [i \in 1..n |-> c]
From(q, i) == SubSeq(q, i, Len(q))

RECURSIVE DropLeading(_, _)
DropLeading(q, c) == IF q # <<>> /\ q[1] = c THEN DropLeading(Tail(q), c) ELSE q
RECURSIVE DropTrailing(_, _)
DropTrailing(q, c) == IF q # <<>> /\ q[Len(q)] = c THEN DropTrailing(SubSeq(q, 1, Len(q) - 1), c) ELSE q

(* decimal digits of n, at least w of them *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
DecW(n, w) == LET d == Dec(n) IN IF Len(d) >= w THEN d ELSE Rep(48, w - Len(d)) \o d

RECURSIVE NumOf(_, _)
NumOf(q, acc) == IF q = <<>> THEN acc ELSE NumOf(Tail(q), acc * 10 + Head(q) - 48)
Num(q) == NumOf(q, 0)

RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))

=============================================================================
