----------------------------- MODULE TimesDesign -----------------------------
(* Every day of the chosen years, and time frames of chosen days, written and altered. A walk through the calendar: the next day follows from the day. *)
EXTENDS Times, FiniteSets, Sequences, Json

CONSTANTS Years, Emit, Mut

VARIABLES day, other, phase, text
vars == <<day, other, phase, text>>
Edges == {D(2000, 1, 1), D(2000, 2, 29), D(1999, 12, 31), D(2024, 2, 28), D(2038, 1, 20), D(1970, 1, 1), D(9999, 12, 31), D(1900, 3, 1), Zero, D(2023, 10, 29)}
FirstDays == {D(y, 1, 1) : y \in Years}
Tomorrow(x) == IF x.d < Days(x.y, x.m) THEN [x EXCEPT !.d = @ + 1] ELSE IF x.m < 12 THEN D(x.y, x.m + 1, 1) ELSE D(x.y + 1, 1, 1)
Init == /\ phase = "day" /\ text = <<>>
        /\ \/ day \in FirstDays /\ other = Zero
           \/ day \in Edges /\ other \in Edges
NextDay == phase = "day" /\ other = Zero /\ day \notin Edges \ FirstDays /\ Tomorrow(day).y = day.y /\ day' = Tomorrow(day) /\ UNCHANGED <<other, phase, text>>
(* altered texts: one character replaced, removed or doubled *)
Bytes == {48, 49, 51, 57, 45, 44, 32, 34, 120}
Base == IF day \in Edges /\ other \in Edges THEN {[w |-> "json", t |-> WriteDate("json", day)], [w |-> "text", t |-> Iso(day)], [w |-> "frame", t |-> WriteFrame(day, other)], [w |-> "query", t |-> Compact(day)]} ELSE {}
Alter == /\ phase = "day" /\ (other \in {Zero, D(2024, 2, 28)}) /\ \E b \in Base :
            /\ phase' = b.w
            /\ \E i \in 1..Len(b.t) : \/ \E c \in Bytes : text' = [b.t EXCEPT ![i] = c]
                                      \/ text' = SubSeq(b.t, 1, i - 1) \o From(b.t, i + 1)
                                      \/ text' = SubSeq(b.t, 1, i) \o From(b.t, i)
                                      \/ i = 1 /\ text' = <<>>
         /\ UNCHANGED <<day, other>>
Next == NextDay \/ Alter
Spec == Init /\ [][Next]_vars

MIso(x) == IF Mut = "short" THEN Dec(x.y) \o <<DASH>> \o Dec(x.m) \o <<DASH>> \o Dec(x.d) ELSE IF Mut = "swap" THEN Iso([x EXCEPT !.m = x.d, !.d = x.m]) ELSE Iso(x)
Good == /\ Real(day)
        /\ phase = "day" => /\ ReadDate("json", WriteDate("json", day)) = [ok |-> TRUE, a |-> day, b |-> Zero]
                            /\ ReadDate("text", MIso(day)) = [ok |-> TRUE, a |-> day, b |-> Zero]
                            /\ ReadQuery(Compact(day), Compact(other)) = [ok |-> TRUE, a |-> day, b |-> other]
                            /\ (day # Zero /\ other # Zero) => ReadFrame(WriteFrame(day, other)) = [ok |-> TRUE, a |-> day, b |-> other]
\* an altered text is either no date or the one it says
Sound == phase \in {"json", "text"} => LET r == ReadDate(phase, text) IN r.ok => WriteDate(phase, r.a) = text
EmitState == IF ~Emit THEN TRUE
             ELSE IF phase = "day" THEN PrintT("@@IN " \o ToJson([op |-> "date", a |-> <<day.y, day.m, day.d>>, b |-> <<other.y, other.m, other.d>>]))
             ELSE PrintT("@@IN " \o ToJson([op |-> "undate", w |-> phase, text |-> text]))
=============================================================================
