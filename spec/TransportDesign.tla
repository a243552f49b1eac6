----------------------------- MODULE TransportDesign -----------------------------
(***************************************************************************)
(* One exchange through the layers between the client and the bank server: *)
(* logging, character set, base64, HTTP; with the faults of the way. The   *)
(* layers are applied one at a time. Every finished exchange is a test.    *)
(***************************************************************************)
EXTENDS Transport, Integers, FiniteSets, Json

CONSTANTS Level, Emit, Mut, Seed

VARIABLES chain, msg, rep, status, fault, rchunk, \* chosen at the beginning
          pc, data, served, res
vars == <<chain, msg, rep, status, fault, rchunk, pc, data, served, res>>

\* the layers, outermost first; "b64http" encodes and sends in one
Layers == [https |-> <<"b64", "http">>, client |-> <<"b64", "http">>, own |-> <<"b64http">>, log |-> <<"log", "b64", "http">>, lognil |-> <<"log", "b64", "http">>,
           utf |-> <<"utf", "b64", "http">>, utflog |-> <<"log", "utf", "b64", "http">>, deep |-> <<"log", "utf", "log", "b64", "http">>]
Chains == DOMAIN Layers
Utf(c) == \E i \in 1..Len(Layers[c]) : Layers[c][i] = "utf"

Some == {0, 10, 39, 65, 255}
RECURSIVE Strings(_, _)
Strings(S, n) == IF n = 0 THEN {<<>>} ELSE LET R == Strings(S, n - 1) IN R \cup {Append(q, c) : q \in {x \in R : Len(x) = n - 1}, c \in S}
Pattern(n) == <<>> \o [i \in 1..n |-> (((i % 1000) * (i % 1000)) + (7 * i) + (i \div 1000) + (Seed * n)) % 256]
Header == Codes("HNHBK:1:3+000000000123+300+0+1'HNHBS:2:1+1'")
Lens == (0..48) \cup (IF Level = "big" THEN {57, 58, 76, 77, 255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3073} ELSE {76, 77})
Bodies == Strings(Some, IF Level = "deep" THEN 4 ELSE 2) \cup {Header} \cup {Pattern(n) : n \in Lens}
Few == {<<>>, <<65>>, <<39, 255>>, <<0, 1, 2>>, Header, Pattern(31)}

\* what the server sends as the body of its answer
Damage(w, f) ==
  LET h == (Len(w) \div 8) * 4 IN
  CASE f = "char" -> SubSeq(w, 1, h) \o <<33>> \o From(w, h + 1)
    [] f = "replace" -> IF w = <<>> THEN <<42>> ELSE [w EXCEPT ![h + 1] = 42]
    [] f = "short" -> IF w = <<>> THEN <<65>> ELSE SubSeq(w, 1, Len(w) - 1)
    [] f = "tail" -> w \o <<65, 66, 67>>
    [] f = "pad" -> w \o <<PAD, PAD, PAD, PAD>>
    [] f = "lines" -> SubSeq(w, 1, h) \o <<13, 10>> \o From(w, h + 1)
    [] f = "html" -> Codes("<html><body>Bad Gateway</body></html>")
    [] OTHER -> w
WireFaults == {"char", "replace", "short", "tail", "pad", "lines", "html"}
LinkFaults == {"close", "reset", "cut", "cutchunk", "reqerr"}
Statuses == {201, 202, 204, 400, 401, 403, 404, 408, 413, 429, 500, 502, 503, 504, 599}
Plain == fault = "" /\ status = 200

Init ==
  /\ chain \in Chains
  /\ \/ msg \in Bodies /\ rep \in {<<72, 73>>, <<>>} /\ status = 200 /\ fault = ""
     \/ msg \in Few /\ rep \in Bodies /\ status = 200 /\ fault = ""
     \/ msg \in {<<65, 66, 67>>, Header} /\ rep \in Few /\ status = 200 /\ fault \in WireFaults \cup LinkFaults
     \/ msg \in {<<65, 66, 67>>, Header} /\ rep \in {<<>>, <<72, 73>>, Header} /\ status \in Statuses /\ fault \in {"", "html"}
  /\ rchunk \in (IF Plain /\ (Len(msg) \in {3, 4, 31} \/ Len(rep) = 31) THEN {0, 1, 3, 5} ELSE {0})
  /\ pc = 1 /\ data = (IF Utf(chain) THEN Utf8(msg) ELSE msg) /\ served = <<>> /\ res = [err |-> FALSE, v |-> <<>>]

Layer == Layers[chain][pc]
Last == Len(Layers[chain])
\* down
Frozen == UNCHANGED <<chain, msg, rep, status, fault, rchunk>>
MEncode(q) == CASE Mut = "nopad" -> SelectSeq(Encode(q), LAMBDA c : c # PAD)
                [] Mut = "noflush" -> SubSeq(Encode(q), 1, (Len(q) \div 3) * 4)
                [] OTHER -> Encode(q)
Fails == /\ res' = [err |-> TRUE, v |-> <<>>] /\ pc' = 0 /\ UNCHANGED <<data, served>>
Down ==
  /\ pc \in 1..Last
  /\ Frozen
  /\ CASE fault = "reqerr" -> Fails
       [] fault # "reqerr" /\ Layer = "log" -> pc' = pc + 1 /\ data' = (IF Mut = "drained" THEN <<>> ELSE data) /\ UNCHANGED <<served, res>>
       [] fault # "reqerr" /\ Layer = "utf" -> pc' = pc + 1 /\ data' = msg /\ UNCHANGED <<served, res>>
       [] fault # "reqerr" /\ Layer = "b64" -> pc' = pc + 1 /\ data' = MEncode(data) /\ UNCHANGED <<served, res>>
       [] OTHER -> /\ LET d == IF Layer = "b64http" THEN MEncode(data) ELSE data
                          one == [method |-> "POST", ctype |-> "application/vnd.hbci", body |-> d]
                      IN served' = (IF Mut = "twice" \/ (Mut = "retry" /\ fault = "close") THEN <<one, one>> ELSE <<one>>)
                   /\ data' = Damage(Encode(rep), fault)
                   /\ IF (fault \in {"close", "reset", "cut", "cutchunk"} /\ ~(Mut = "nocut" /\ fault = "cut")) \/ (status # 200 /\ chain # "own" /\ Mut # "status")
                      THEN res' = [err |-> TRUE, v |-> <<>>] /\ pc' = 0
                      ELSE pc' = -Last /\ UNCHANGED res
\* up again
Up1 ==
  /\ pc < 0
  /\ Frozen /\ UNCHANGED served
  /\ LET l == Layers[chain][-pc]
         x == Decode(data)
         decodes == l = "b64" \/ (l = "b64http" /\ status = 200)
     IN IF decodes /\ ~x.ok /\ Mut # "tolerant" THEN res' = [err |-> TRUE, v |-> <<>>] /\ pc' = 0 /\ data' = data
        ELSE LET d == IF decodes THEN x.v ELSE IF l = "utf" THEN Utf8(data) ELSE data
             IN /\ data' = d
                /\ IF pc = -1 THEN res' = [err |-> FALSE, v |-> d] /\ pc' = 0 ELSE pc' = pc + 1 /\ res' = res
Next == Down \/ Up1
Spec == Init /\ [][Next]_vars

Done == pc = 0
Case == [op |-> "wrap", chain |-> chain, msg |-> msg, body |-> IF Utf(chain) THEN Utf8(msg) ELSE msg, rep |-> rep, wire |-> Damage(Encode(rep), fault), status |-> status,
         fault |-> fault, rchunk |-> rchunk, utf |-> Utf(chain)]
\* the property
Once == Done /\ fault # "reqerr" => served = <<[method |-> "POST", ctype |-> "application/vnd.hbci", body |-> Encode(msg)]>>
Exact == Done /\ Plain => ~res.err /\ res.v = (IF Utf(chain) THEN Utf8(rep) ELSE rep)
Broken == Done /\ (fault \in LinkFaults \cup (WireFaults \ {"lines"}) \/ status >= 400) => res.err \/ (chain = "own" /\ status # 200)
Inverse == Decode(Encode(msg)) = [ok |-> TRUE, clean |-> TRUE, v |-> msg]
Good == Once /\ Exact /\ Broken /\ Inverse
\* bodies longer than any buffer on the way: many times the same character
Longs == IF Level = "small" THEN {48 * 1024, 52345 + Seed} ELSE {4095, 4096, 4097, 49151, 49152, 49153, 65535, 65536, 65537, 200000 + Seed, 1000000}
Bulk(c, ch, n, k) == LET Wide == IF Utf(c) THEN Utf8(ch) ELSE ch IN [op |-> "bulk", chain |-> c, body |-> Many(Wide, n), want |-> EncodeMany(ch[1], n), wire |-> EncodeMany(ch[1], k), res |-> Many(Wide, k),
                      status |-> 200, fault |-> "", rchunk |-> 0, utf |-> Utf(c), width |-> Len(Wide)]
ASSUME (Emit /\ Level # "deep") => \A c \in Chains, n \in Longs, ch \in {<<120>>, <<228>>} :
  /\ PrintT("@@IN " \o ToJson(Bulk(c, ch, n, 2)))
  /\ (c \in {"https", "client", "own"} /\ ch = <<120>>) => PrintT("@@IN " \o ToJson(Bulk(c, ch, 17000003, 3))) /\ PrintT("@@IN " \o ToJson(Bulk(c, ch, 5, 17000003)))
  /\ PrintT("@@IN " \o ToJson(Bulk(c, ch, 3, n)))
EmitState == (Emit /\ Done) => PrintT("@@IN " \o ToJson(Case))
=============================================================================
