--------------------------------- MODULE Damage ---------------------------------
(***************************************************************************)
(* Hostile and broken replies: a conversation in which the bank conforms,  *)
(* except that one reply (any exchange of any operation) is damaged - a    *)
(* part of it is missing, duplicated, exchanged, replaced or cut off - and *)
(* after which the bank conforms again.                                    *)
(*                                                                         *)
(* The state is a scenario under construction: base conversation, the      *)
(* exchange hit, the damages. Every complete one is replayed.              *)
(***************************************************************************)
EXTENDS Bases, Json

CONSTANTS Rand,   \* TRUE: random damage (simulation), FALSE: all damages within the bounds
          Unit,   \* the unit hit in exhaustive enumeration: head | grp | seg | el | ge | byte | body
          MaxAt,  \* highest position tried
          MaxD    \* number of damages of one reply (simulation)

VARIABLES b, x, d
vars == <<b, x, d>>

IDs == {"HIRMG", "HIRMS", "HISYN", "HIBPA", "HIPINS", "HITANS", "HIUPA", "HIUPD", "HIKIM", "HIKAZ", "HISAL", "HIPRO", "HIKIF", "HIKOM", "HISHV", "HIKPV", "HITAN", "HNHBK", "HNHBS",
        "HNVSK", "HNVSD", "HNSHK", "HNSHA", "HISALS", "HKIDN", "hibpa", "", "X"}
Vers == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "99", "-1", "x", "", "99999999999999999999", "01"}
Vals == {"", "x", "0", "-1", "00", "7", "99999999999999999999", "20151399", "256161", "1,2,3", ",", ":", "::::::::::", "a:b:c:d:e:f:g:h:i:j:k:l:m:n", "@0@", "@3@abc", "@999@", "@@", "@-1@", "@",
         "?", "??", "J", "C:1,:EUR", "EUR", "1,5", "9999", "+", "++++++++++++", "'", "''", " ", "ä", "3040:::", "9050::Fehler", "3920::x", "280:10000000", "1,:EUR:1:2"}
SmallVals == {"", "x", "99999999999999999999", ":", "::::::::::", "@3@abc", "@999@", "?", "+", "'", "-1", "1,2,3", "a:b:c:d:e:f:g:h:i:j:k:l:m:n"}
D(part, unit, at, act, arg) == [part |-> part, unit |-> unit, at |-> at, act |-> act, arg |-> arg]
Plain(part, unit, at) == {D(part, unit, at, a, "") : a \in {"del", "dup", "swap", "cut"}}
ByteArgs == {"'", "+", ":", "?", "@", "0"}

Vs == IF Small THEN SmallVals ELSE Vals
At(part, unit, at) ==
  CASE unit = "seg" -> Plain(part, unit, at) \cup {D(part, unit, at, "set", v) : v \in {"", "X", "HIBPA", "HIRMG:2", "HIRMG:x:2", "HIRMG:2:2", "HIUPD:2:6", ":::", "+", "'"}}
                       \cup {D(part, unit, at, "ins", v) : v \in {"'", "X'", "HIXXX:1:1+a'", "@5@", "HIRMG:2:2'", "HIRMG:2:2:+9050'", "'''''"}}
                       \cup {D(part, unit, at, "id", v) : v \in IDs} \cup {D(part, unit, at, "ver", v) : v \in Vers}
                       \cup {D(part, unit, at, "app", v) : v \in {"+", "+x:y+z", ":1:2:3", "++++++++++++++++++++"}}
    [] unit \in {"el", "ge"} -> Plain(part, unit, at) \cup {D(part, unit, at, "cutkeep", "")} \cup {D(part, unit, at, "set", v) : v \in Vs}
                       \cup {D(part, unit, at, "app", v) : v \in {":", "+", "x", ":x:y:z"}} \cup {D(part, unit, at, "ins", v) : v \in {":", "+", "-"}}
    \* one part less or more than there should be: the counts are what the content is divided by
    [] unit = "grp" -> {D(part, unit, at, a, "") : a \in {"pop", "half", "rep"}} \cup {D(part, unit, at, "app", v) : v \in {":", ":0", ":J:0:1"}}
    [] unit = "byte" -> {D(part, unit, at, "cut", ""), D(part, unit, at, "del", "")} \cup {D(part, unit, at, "ins", v) : v \in ByteArgs} \cup {D(part, unit, at, "set", v) : v \in ByteArgs}
                       \cup {D(part, unit, at, "flip", v) : v \in {"1", "4", "16", "128"}}
    \* the fields of the message header: size, protocol version, dialog, number, reference
    [] unit = "head" -> UNION {{D("outer", "el", at + 1, "set", v) : v \in (CASE at = 0 -> {"", "0", "x", "000000000001", "999999999999"} [] at = 1 -> {"", "220", "300", "201", "x", "0"} [] OTHER -> {"", "0", "-1", "x", "00", "1", "99"})}}
    [] OTHER -> {}
Body(at) == {D("body", "byte", at, "cut", ""), D("body", "byte", at, "del", ""), D("body", "byte", at, "ins", "!"), D("body", "byte", at, "ins", "\n"), D("body", "byte", at, "set", "="), D("body", "byte", at, "set", "A")}

All(at) == IF Unit = "body" THEN Body(at) ELSE IF Unit = "head" THEN At("outer", Unit, at) ELSE IF Unit = "grp" THEN At("inner", Unit, at) ELSE At("inner", Unit, at) \cup At("outer", Unit, at)
\* drawn anew in every state (a constant expression would be evaluated once)
SOne(S) == RandomElement(IF Len(d) < 0 THEN {} ELSE S)
RDamage == LET u == SOne({"seg", "seg2", "el1", "el2", "ge1", "ge2", "ge3", "byte", "body"}) IN
           IF u = "body" THEN SOne(Body(10000 + SOne(0..SOne({30, 5000}))))
           ELSE LET w == CASE u \in {"seg", "seg2"} -> "seg" [] u \in {"el1", "el2"} -> "el" [] u = "byte" -> "byte" [] OTHER -> "ge"
                IN SOne(At(IF SOne({"inner", "outer", "x"}) = "outer" THEN "outer" ELSE "inner", w, 10000 + SOne(0..4999)))

\* bases are printed by name; the scenarios refer to them
Emit(dd) == PrintT("@@SC " \o ToJson([base |-> b[1].name \o ToString(b[1].ver), q |-> x[1].q, i |-> x[1].i, dmg |-> dd]))
EmitBase(base) == PrintT("@@BASE " \o ToJson([base |-> base.name \o ToString(base.ver), api |-> base.api, ver |-> base.ver, op |-> base.op, args |-> base.args, bank |-> base.bank]))

Init == b = <<>> /\ x = <<>> /\ d = <<>>
ChooseBase == b = <<>> /\ (IF Rand THEN \E base \in {TLCEval(SOne(Bases))} : b' = <<base>> /\ EmitBase(base)
                           ELSE \E base \in Bases : b' = <<base>> /\ EmitBase(base)) /\ UNCHANGED <<x, d>>
ChooseEx == b # <<>> /\ x = <<>> /\ (\E e \in Exchanges(b[1]) : x' = <<e>>) /\ UNCHANGED <<b, d>>
Hit == /\ x # <<>> /\ Len(d) < (IF Rand THEN MaxD ELSE 1)
       /\ IF Rand THEN \E y \in {TLCEval(RDamage)} : d' = Append(d, y)
          ELSE \E at \in 0..MaxAt : \E y \in All(at) : d' = Append(d, y)
       /\ Emit(d')
       /\ UNCHANGED <<b, x>>
Next == ChooseBase \/ ChooseEx \/ Hit
Spec == Init /\ [][Next]_vars
================================================================================
