------------------------------ MODULE Ic3Chain ------------------------------
(* Design of the IC3 chain of sections: a writer that appends header and data
   of one section after the other and may stop at any unit, and a reader that
   looks for the sections it needs by following the skips from the start.
   Properties: a complete file gives the content whatever the order of its
   sections and the foreign sections between them; an incomplete file, or one
   whose repeated counts differ, is refused.  A section is
   [k, id, n]: kind, payload, announced count; it takes 2 units (header, data),
   except COUNTS, ZONE and EOF that take 1.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxForeign, Damage, Stops, Emitting
Sec(k, id) == [k |-> k, id |-> id, n |-> 7]
Body == {Sec("COUNTS", 0), Sec("TOPO", 1), Sec("ZONE", 2), Sec("ZONE", 3), Sec("X", 4), Sec("FIELD", 5)}
Foreign == {Sec("FOREIGN", 100 + i) : i \in 1..MaxForeign}
All == Body \cup Foreign
Units(s) == IF s.k \in {"COUNTS", "ZONE", "EOF"} THEN 1 ELSE 2
Required == <<"COUNTS", "TOPO", "X">>
Repeated == {"TOPO", "X", "FIELD"}     \* sections that repeat a count

VARIABLES disk, size,            \* sections written, units on the disk
          wleft, stopped,        \* writer
          phase, pos, sk, got, res, dmg  \* reader
vars == <<disk, size, wleft, stopped, phase, pos, sk, got, res, dmg>>
RECURSIVE Len2(_)
Len2(d) == IF d = <<>> THEN 0 ELSE Units(Head(d)) + Len2(Tail(d))
Start(i) == Len2(SubSeq(disk, 1, i - 1))       \* first unit of section i

Init == /\ disk = <<>> /\ size = 0 /\ wleft = All /\ stopped = FALSE
        /\ phase = "write" /\ pos = 1 /\ sk = 1 /\ got = {} /\ res = "" /\ dmg = 0
\* ---- writer (any order of sections; EOF last)
Append1(s) == /\ phase = "write" /\ ~stopped /\ size = Len2(disk)
              /\ disk' = Append(disk, s) /\ wleft' = wleft \ {s}
              /\ size' = size + 1
              /\ UNCHANGED <<stopped, phase, pos, sk, got, res, dmg>>
Data == /\ phase = "write" /\ ~stopped /\ size < Len2(disk) /\ size' = size + 1
        /\ UNCHANGED <<disk, wleft, stopped, phase, pos, sk, got, res, dmg>>
Put == (\E s \in wleft : Append1(s)) \/ (wleft = {} /\ (\A i \in DOMAIN disk : disk[i].k # "EOF") /\ Append1(Sec("EOF", 0)))
Complete == \E i \in DOMAIN disk : disk[i].k = "EOF"
Stop == /\ Stops /\ phase = "write" /\ ~stopped /\ ~(Complete /\ size = Len2(disk)) /\ stopped' = TRUE
        /\ UNCHANGED <<disk, size, wleft, phase, pos, sk, got, res, dmg>>
Harm == /\ Damage /\ phase = "write" /\ Complete /\ dmg = 0
        /\ \E i \in DOMAIN disk : disk[i].k \in Repeated \cup {"COUNTS"}
              /\ disk' = [disk EXCEPT ![i].n = 8] /\ dmg' = i
        /\ UNCHANGED <<size, wleft, stopped, phase, pos, sk, got, res>>
Open == /\ phase = "write" /\ (stopped \/ (Complete /\ size = Len2(disk))) /\ phase' = "req" /\ pos' = 1 /\ sk' = 1
        /\ UNCHANGED <<disk, size, wleft, stopped, got, res, dmg>>
\* ---- reader: phase req looks for Required[sk] from the start; then zones, then fields, up to EOF
HeaderHere == pos <= Len(disk) /\ Start(pos) + 1 <= size
DataHere == Start(pos) + Units(disk[pos]) <= size
Fail(why) == phase' = "end" /\ res' = why /\ UNCHANGED <<disk, size, wleft, stopped, pos, sk, got, dmg>>
Step(ph, p, s, g) == /\ phase' = ph /\ pos' = p /\ sk' = s /\ got' = g /\ UNCHANGED <<disk, size, wleft, stopped, res, dmg>>
CountOf == IF \E g \in got : g.k = "COUNTS" THEN (CHOOSE g \in got : g.k = "COUNTS").n ELSE 7
Agrees(s) == s.k = "COUNTS" \/ s.n = CountOf
Req == /\ phase = "req"
       /\ IF ~HeaderHere THEN Fail("incomplete")
          ELSE IF disk[pos].k = Required[sk]
               THEN IF ~DataHere THEN Fail("incomplete")
                    ELSE IF ~Agrees(disk[pos]) THEN Fail("counts")
                    ELSE IF sk < Len(Required) THEN Step("req", 1, sk + 1, got \cup {disk[pos]})
                    ELSE Step("zones", 1, 1, got \cup {disk[pos]})
          ELSE IF disk[pos].k = "EOF" THEN Fail("missing section") ELSE Step("req", pos + 1, sk, got)
Loop(ph, kind, next) ==
       /\ phase = ph
       /\ IF ~HeaderHere THEN Fail("incomplete")
          ELSE IF disk[pos].k = "EOF" THEN Step(next, 1, 1, got)
          ELSE IF disk[pos].k = kind
               THEN IF ~DataHere THEN Fail("incomplete") ELSE IF ~Agrees(disk[pos]) THEN Fail("counts")
                    ELSE Step(ph, pos + 1, 1, got \cup {disk[pos]})
          ELSE Step(ph, pos + 1, 1, got)
Accept == phase = "ok" /\ phase' = "end" /\ res' = "read" /\ UNCHANGED <<disk, size, wleft, stopped, pos, sk, got, dmg>>
Next == Put \/ Data \/ Stop \/ Harm \/ Open \/ Req \/ Loop("zones", "ZONE", "fields") \/ Loop("fields", "FIELD", "ok") \/ Accept
Spec == Init /\ [][Next]_vars
\* ---- properties
Whole == Complete /\ size = Len2(disk)
ReadAll == (res = "read") => (got = {disk[i] : i \in {j \in DOMAIN disk : disk[j].k \notin {"FOREIGN", "EOF"}}} /\ Whole)
CompleteIsRead == (res # "" /\ ~stopped /\ dmg = 0) => res = "read"
PrefixIsRefused == (res # "" /\ stopped) => res # "read"
DamageIsRefused == (res # "" /\ dmg # 0) => res # "read"
\* ---- scenarios: the orders of sections
Emit == (Emitting /\ phase = "req" /\ pos = 1 /\ sk = 1 /\ ~stopped) => PrintT("@@" \o ToJson([i \in 1..(Len(disk) - 1) |-> disk[i].id]))
=============================================================================
