----------------------------- MODULE TarReader -----------------------------
(* The reader as a machine over the entries, checked against TarShard.     *)
EXTENDS TarShard
CONSTANTS MaxEntries, Bases, PartNames

VARIABLES es, off, cnt, excl, pos, idx, cur, out, runs
vars == <<es, off, cnt, excl, pos, idx, cur, out, runs>>

\* base names do not come back after another sample
WellFormed(s) == \A a, b \in 1..Len(s) : a < b /\ IsFile(s[a]) /\ IsFile(s[b]) /\ s[a].b = s[b].b =>
    \A m \in a..b : IsFile(s[m]) => s[m].b = s[a].b
Entry == [k : {"f"}, b : Bases, x : PartNames, c : {0}] \cup [k : {"d"}, b : {0}, x : {0}, c : {0}]
Shards == {s \in UNION {[1..n -> Entry] : n \in 1..MaxEntries} : WellFormed(s)}

Limit == LET st == Starts(es) IN IF off + cnt < Len(st) THEN st[off + cnt + 1] - 1 ELSE Len(es)
None == [b |-> 0, parts |-> <<>>]

Init == /\ es \in Shards /\ excl \in SUBSET Bases
        /\ off \in 0..Len(Samples(es)) /\ cnt \in 0..(Len(Samples(es)) - off)
        /\ pos = (IF off = 0 THEN 0 ELSE IF off < Len(Starts(es)) THEN Starts(es)[off + 1] - 1 ELSE Len(es))
        /\ idx = off - 1 /\ cur = None /\ out = <<>> /\ runs = 0

\* the next entry of a sample
Deliver == IF cur # None /\ cur.b \notin excl THEN Append(out, <<idx, cur>>) ELSE out
Scan == /\ pos < Limit
        /\ pos' = pos + 1
        /\ LET e == es[pos + 1] IN
             IF ~IsFile(e) THEN UNCHANGED <<idx, cur, out>>
             ELSE IF cur # None /\ cur.b = e.b THEN cur' = [cur EXCEPT !.parts = Append(@, <<e.x, e.c>>)] /\ UNCHANGED <<idx, out>>
             ELSE /\ out' = Deliver
                  /\ idx' = idx + 1
                  /\ cur' = [b |-> e.b, parts |-> <<<<e.x, e.c>>>>]
        /\ UNCHANGED <<es, off, cnt, excl, runs>>
Finish == /\ pos = Limit /\ cur # None
          /\ out' = Deliver /\ cur' = None
          /\ UNCHANGED <<es, off, cnt, excl, pos, idx, runs>>
\* A new process continues after the last delivered sample, at the start of the next one
Restart == /\ runs = 0 /\ runs' = 1
           /\ LET n == IF out = <<>> THEN off ELSE out[Len(out)][1] + 1
              IN /\ n < off + cnt
                 /\ pos' = Starts(es)[n + 1] - 1
                 /\ idx' = n - 1
           /\ cur' = None
           /\ UNCHANGED <<es, off, cnt, excl, out>>
Next == Scan \/ Finish \/ Restart
Spec == Init /\ [][Next]_vars

Exp == Expected(es, off, cnt, excl, PartNames)
Prefix == Len(out) <= Len(Exp) /\ out = SubSeq(Exp, 1, Len(out))
Complete == (pos = Limit /\ cur = None /\ cnt > 0) => out = Exp
=============================================================================
