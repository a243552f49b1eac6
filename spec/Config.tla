-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* What a client is made from: the explicit configuration and the bank     *)
(* directory (IOEnv.DIR: bank number -> its entries).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

Dir == JsonDeserialize(IOEnv.DIR)
Numbers == DOMAIN Dir
Supported == {220, 300}
None == [url |-> "", num |-> "", name |-> "", bic |-> ""]
Entries(b) == IF b \in Numbers THEN {Dir[b][i] : i \in 1..Len(Dir[b])} ELSE {None}

NumberOf == ("2.1" :> 210) @@ ("2.2" :> 220) @@ ("3.0" :> 300) @@ ("4.0" :> 400) @@ ("4.1" :> 410)
NameOf == ("HBCI 2.2 Erweiterung PIN/TAN V1.01" :> 220) @@ ("FinTS V3.0" :> 300) @@ ("FinTS V4.0" :> 400) @@ ("FinTS V4.1" :> 410)
Versions(e) == (IF e.num \in DOMAIN NumberOf THEN {NumberOf[e.num]} ELSE {}) \cup (IF e.name \in DOMAIN NameOf THEN {NameOf[e.name]} ELSE {})
\* the newest version the entry names; 0: none
EntryVersion(e) == LET v == Versions(e) IN IF v = {} THEN 0 ELSE CHOOSE x \in v : \A y \in v : y <= x

\* the client for configuration c if e is the entry that is used; ok = FALSE: no client
Resolve(c, e) ==
  LET url == IF c.url # "" THEN c.url ELSE e.url
      ver == IF c.ver # 0 THEN c.ver ELSE EntryVersion(e)
  IN [ok |-> url # "" /\ ver \in Supported, url |-> url, ver |-> ver]
\* several entries may have the same number
Outcomes(c) == {Resolve(c, e) : e \in Entries(c.bank)}
===============================================================================
