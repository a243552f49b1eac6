-------------------------------- MODULE DumpMenu --------------------------------
(* Prints the named reply descriptors of BankMenu as JSON, for replay. *)
EXTENDS BankMenu, Json
VARIABLE x
All == UNION {Menu(k, op) : k \in {"sync", "init", "anoninit", "biz", "end"}, op \in {"tx", "bal", "sepabal", "status", "acctinfo", "commaccess"}}
Init == x = 0 /\ \A e \in All : PrintT("@@MENU " \o ToJson(e))
Next == FALSE /\ UNCHANGED x
================================================================================
