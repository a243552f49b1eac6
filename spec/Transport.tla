------------------------------- MODULE Transport -------------------------------
(* What travels between client and bank server: base64 (RFC 4648), ISO 8859-1 and UTF-8. *)
EXTENDS Chars

Alphabet == Codes("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
ValueOf == [c \in 0..255 |-> IF \E i \in 1..64 : Alphabet[i] = c THEN (CHOOSE i \in 1..64 : Alphabet[i] = c) - 1 ELSE 64]
PAD == 61
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
Up(n, d) == (n + d - 1) \div d

\* the i-th character of the encoding of q
Char(q, i) ==
  LET g == (i - 1) \div 4
      a == At(q, 3 * g + 1)
      b == At(q, 3 * g + 2)
      c == At(q, 3 * g + 3)
      k == (i - 1) % 4
  IN CASE k = 0 -> Alphabet[(a \div 4) + 1]
       [] k = 1 -> Alphabet[((a % 4) * 16) + (b \div 16) + 1]
       [] k = 2 -> IF 3 * g + 2 > Len(q) THEN PAD ELSE Alphabet[((b % 16) * 4) + (c \div 64) + 1]
       [] OTHER -> IF 3 * g + 3 > Len(q) THEN PAD ELSE Alphabet[(c % 64) + 1]
Encode(q) == <<>> \o [i \in 1..(4 * Up(Len(q), 3)) |-> Char(q, i)]

(* the same character n times: groups of bytes and how often each is repeated *)
Many(g, n) == IF n = 0 THEN <<>> ELSE <<[g |-> g, n |-> n]>>
EncodeMany(b, n) == Many(Encode(<<b, b, b>>), n \div 3) \o (IF n % 3 = 0 THEN <<>> ELSE Many(Encode(IF n % 3 = 1 THEN <<b>> ELSE <<b, b>>), 1))

\* reading: [ok, clean, v]; clean: nothing a reader might or might not tolerate
Decode(w) ==
  LET lf(c) == c = 13 \/ c = 10
      t == SelectSeq(w, LAMBDA c : ~lf(c))
      n == Len(t)
      pads == IF n > 1 /\ t[n] = PAD THEN (IF t[n - 1] = PAD THEN 2 ELSE 1) ELSE 0
      val(i) == IF i > n - pads THEN 0 ELSE ValueOf[t[i]]
      ok == n % 4 = 0 /\ \A i \in 1..(n - pads) : ValueOf[t[i]] < 64
      byte(i) == LET g == (i - 1) \div 3
                     k == (i - 1) % 3
                 IN CASE k = 0 -> (val(4 * g + 1) * 4) + (val(4 * g + 2) \div 16)
                      [] k = 1 -> ((val(4 * g + 2) % 16) * 16) + (val(4 * g + 3) \div 4)
                      [] OTHER -> ((val(4 * g + 3) % 4) * 64) + val(4 * g + 4)
      v == IF ok THEN <<>> \o [i \in 1..(((n \div 4) * 3) - pads) |-> byte(i)] ELSE <<>>
  IN [ok |-> ok, clean |-> ok /\ w = Encode(v), v |-> v]

\* code points up to 255 in UTF-8, and back
Utf8(q) == Concat([i \in 1..Len(q) |-> IF q[i] < 128 THEN <<q[i]>> ELSE <<192 + (q[i] \div 64), 128 + (q[i] % 64)>>])
=============================================================================
