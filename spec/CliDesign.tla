------------------------------- MODULE CliDesign -------------------------------
(***************************************************************************)
(* The command line client: a user calls it again and again with the same  *)
(* home directory. What it works with is taken from flags, else from the   *)
(* environment, else from the configuration file; the first call that      *)
(* finds no file writes one. Every sequence of calls is a test input; what *)
(* the bank answers comes from HbciDialog.                                 *)
(***************************************************************************)
EXTENDS Iban, Integers, Json, IOUtils

Cfgs == INSTANCE Config

CONSTANTS Rand, Emit, Mut, MaxCalls, Seed

VARIABLES start, home, other, calls, at, banks
vars == <<start, home, other, calls, at, banks>>

Digit(c) == SubSeq("0123456789", c - 47, c - 47)
\* bank numbers whose client is the same for every entry of the directory
Plain(b) == Len(b) = 8 /\ Cardinality(Cfgs!Entries(b)) = 1 /\ \A e \in Cfgs!Entries(b) : Cfgs!EntryVersion(e) \in Cfgs!Supported
PlainNumbers == {b \in Cfgs!Numbers : Plain(b)}
Last3(b) == CHOOSE i \in 0..999 : SubSeq(b, 6, 8) = SubSeq(ToString(1000 + i), 2, 4)
VerOf(b) == Cfgs!EntryVersion(CHOOSE e \in Cfgs!Entries(b) : TRUE)
BicOf(b) == (CHOOSE e \in Cfgs!Entries(b) : TRUE).bic
\* the same few of them for every run with the same seed
Some(v) == CHOOSE b \in {x \in PlainNumbers : VerOf(x) = v} : \A y \in {x \in PlainNumbers : VerOf(x) = v} : (Last3(b) + Seed * 37) % 1000 <= (Last3(y) + Seed * 37) % 1000

One(S) == RandomElement(IF Len(calls) < 0 THEN {} ELSE S)
Chance(n) == One(1..n) = 1

Users == IF Rand THEN {"4711", "0012345678", "benutzer1", "1e3", "yes", "a+b:c", "0x1F"} ELSE {"4711", "0012345678"}
Pins == {"geheimPIN7", "99173", "pin+mit:'?@"}
Unknown == "12345678"
Cmds == {"accounts", "balances", "transactions"}
Accts == IF Rand THEN {"", "", "4711", "0000001234", "1234567890", "0", "12a", "12345678901"} ELSE {"", "0000001234", "12a"}
First(s) == IF \A i \in 1..Len(s) : s[i] = "" THEN "" ELSE s[CHOOSE i \in 1..Len(s) : s[i] # "" /\ \A j \in 1..(i - 1) : s[j] = ""]

Nothing == [user |-> "", blz |-> ""]
Conf(c) == IF c.cf THEN other ELSE IF home = <<>> THEN Nothing ELSE home[1]
UserOf(c) == IF Mut = "file_wins" THEN First(<<Conf(c).user, c.fu, c.eu>>) ELSE First(<<c.fu, c.eu, Conf(c).user>>)
BlzOf(c) == First(<<c.fb, c.eb, Conf(c).blz>>)

\* what a call is to do: fail by itself, or carry out an operation
Want(c) ==
  LET u == UserOf(c)
      b == BlzOf(c)
      id == IF c.acct = "" THEN u ELSE c.acct
      iban == German(Codes(b), Codes(id))
      known == b \in PlainNumbers
      local == c.pin = "" \/ u = "" \/ b = "" \/ ~known \/ (c.cmd # "accounts" /\ ~iban.ok)
  IN [local |-> local, user |-> u, blz |-> b, ver |-> IF known THEN VerOf(b) ELSE 0, bic |-> IF known THEN BicOf(b) ELSE "",
      id |-> id, iban |-> iban.val,
      op |-> CASE c.cmd = "accounts" -> "accounts" [] c.cmd = "balances" -> (IF c.nosepa THEN "bal" ELSE "sepabal") [] OTHER -> (IF c.nosepa THEN "tx" ELSE "sepatx"),
      days |-> IF c.days < 0 THEN 10 ELSE c.days]

Record(c) ==
  LET w == Want(c)
      complete == c.pin # "" /\ w.user # "" /\ w.blz # "" IN
  /\ calls' = Append(calls, [call |-> c, want |-> w])
  /\ home' = IF (c.cf \/ home # <<>>) /\ Mut # "forgets" THEN home ELSE <<[user |-> w.user, blz |-> w.blz]>>
  \* what an incomplete call leaves behind is open
  /\ at' = IF Len(calls) + 1 = MaxCalls \/ (~complete /\ home = <<>>) THEN "end" ELSE "run"
  /\ UNCHANGED <<start, other, banks>>

RandCall ==
  [fu |-> IF Chance(2) THEN "" ELSE One(Users), eu |-> IF Chance(3) THEN One(Users) ELSE "", fb |-> IF Chance(2) THEN "" ELSE One(banks), eb |-> IF Chance(3) THEN One(banks \cup {Unknown}) ELSE "",
   cf |-> Chance(4), pin |-> IF Chance(20) THEN "" ELSE One(Pins), cmd |-> One(Cmds), nosepa |-> Chance(3), acct |-> One(Accts), days |-> One({-1, -1, 0, 1, 30, 59, 400}), debug |-> Chance(6)]
Plainly == [fu |-> "", eu |-> "", fb |-> "", eb |-> "", cf |-> FALSE, pin |-> "geheimPIN7", cmd |-> "accounts", nosepa |-> FALSE, acct |-> "", days |-> -1, debug |-> FALSE]
Call ==
  /\ at = "run"
  /\ IF Rand THEN \E c \in {RandCall} : Record(c)
     ELSE \/ \E fu \in {""} \cup Users, eu \in {""} \cup Users, cf \in BOOLEAN, x \in {<<"", "">>, <<Some(300), "">>, <<"", Some(220)>>, <<Some(220), Some(300)>>} :
               Record([Plainly EXCEPT !.fu = fu, !.eu = eu, !.fb = x[1], !.eb = x[2], !.cf = cf])
          \/ \E cmd \in Cmds \ {"accounts"}, n \in BOOLEAN, a \in Accts, d \in {-1, 0, 30} :
               Record([Plainly EXCEPT !.fu = "4711", !.fb = Some(300), !.cmd = cmd, !.nosepa = n, !.acct = a, !.days = IF cmd = "transactions" THEN d ELSE -1])
          \/ \E p \in {"", "99173"}, b \in {Unknown, Some(220)} : Record([Plainly EXCEPT !.fu = "4711", !.fb = b, !.pin = p])
Homes == {<<>>, <<[user |-> "0012345678", blz |-> Some(300)]>>, <<[user |-> "yes", blz |-> Some(220)]>>, <<[user |-> "4711", blz |-> ""]>>}
Init == /\ start \in Homes
        /\ home = start
        /\ other = [user |-> "0000000042", blz |-> Some(300)]
        /\ calls = <<>> /\ at = "run"
        /\ banks = {Some(300), Some(220)}
Next == Call
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Good ==
  /\ (start # <<>> => home = start)
  /\ (Len(calls) > 1 /\ start = <<>> /\ ~calls[1].call.cf /\ at = "run" => home = <<[user |-> calls[1].want.user, blz |-> calls[1].want.blz]>>)
  /\ \A i \in 1..Len(calls) : /\ (calls[i].call.fu # "" => calls[i].want.user = calls[i].call.fu)
                              /\ (calls[i].call.fu = "" /\ calls[i].call.eu # "" => calls[i].want.user = calls[i].call.eu)
                              /\ (~calls[i].want.local => calls[i].want.user # "" /\ calls[i].want.ver \in {220, 300})
EmitState == Emit /\ at = "end" => PrintT("@@IN " \o ToJson([start |-> start, other |-> other, calls |-> calls]))
=============================================================================
