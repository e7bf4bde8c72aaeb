---------------------------- MODULE RetryStream ----------------------------
(***************************************************************************)
(* A stream which reads a file through an unreliable file handle.          *)
(*                                                                         *)
(* The file has the bytes 1..Size.  A read(n) repeats low level steps      *)
(* until it has n bytes or the file ends: opening the handle, positioning  *)
(* it and reading.  Each may fail, and a low level read may return fewer   *)
(* bytes, or none (a premature end).  A failure closes the handle; after   *)
(* Limit failures the read gives up.                                       *)
(*   pos    position of the stream                                         *)
(*   h      position of the open handle, or -1                             *)
(*   op     number of bytes still to be read (-1: idle, -2: all)           *)
(*   buf    bytes collected for the running read, from position start      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Size, Limit, MaxOps, MaxFaults

VARIABLES pos, h, op, buf, start, retry, faults, ops, last
vars == <<pos, h, op, buf, start, retry, faults, ops, last>>

None == [k |-> "none"]
Bytes(a, b) == [k \in 1..(IF b > a THEN b - a ELSE 0) |-> a + k]
Min(a, b) == IF a < b THEN a ELSE b

\* What a plain file returns for read(n) at position p
Plain(p, n) == IF n < 0 THEN Bytes(p, Size) ELSE Bytes(p, Min(p + n, Size))

Init == /\ pos = 0 /\ h = -1 /\ op = -1 /\ buf = <<>> /\ start = 0 /\ retry = 0
        /\ faults = 0 /\ ops = 0 /\ last = None

Read(n) == /\ op = -1 /\ ops < MaxOps
           /\ op' = (IF n < 0 THEN -2 ELSE n) /\ buf' = <<>> /\ start' = pos /\ retry' = 0
           /\ ops' = ops + 1 /\ last' = None
           /\ UNCHANGED <<pos, h, faults>>

\* A failing positioning of the handle closes it; the next read opens it again
Seek(o) == /\ op = -1 /\ ops < MaxOps
           /\ pos' = o /\ ops' = ops + 1 /\ last' = None
           /\ \/ h = -1 /\ h' = -1 /\ UNCHANGED faults
              \/ h # -1 /\ h' = o /\ UNCHANGED faults
              \/ h # -1 /\ faults < MaxFaults /\ h' = -1 /\ faults' = faults + 1
           /\ UNCHANGED <<op, buf, start, retry>>

Fail == /\ h' = -1
        /\ faults' = faults + 1
        /\ IF retry = Limit - 1
           THEN /\ op' = -1
                /\ last' = [k |-> "err", fails |-> retry + 1, start |-> start]
                /\ retry' = 0
           ELSE /\ retry' = retry + 1 /\ UNCHANGED <<op, last>>

Open == /\ op # -1 /\ h = -1
        /\ \/ h' = pos /\ UNCHANGED <<pos, op, buf, start, retry, faults, ops, last>>
           \/ faults < MaxFaults /\ Fail /\ UNCHANGED <<pos, buf, start, ops>>

Want == IF op = -2 THEN Size - h ELSE Min(op - Len(buf), Size - h)

\* The handle delivers k of the wanted bytes
LowRead(k) ==
    /\ op # -1 /\ h # -1 /\ k \in 0..Want
    /\ (k < Want => faults < MaxFaults)
    /\ pos' = pos + k
    /\ buf' = buf \o Bytes(h, h + k)
    /\ IF (op # -2 /\ Len(buf) + k = op) \/ pos + k >= Size
       THEN /\ op' = -1 /\ h' = h + k
            /\ last' = [k |-> "ok", v |-> buf', n |-> op, start |-> start]
            /\ UNCHANGED <<retry, faults, start, ops>>
       ELSE IF k = 0
       THEN Fail /\ UNCHANGED <<start, ops>>
       ELSE /\ h' = h + k /\ faults' = faults + 1 /\ UNCHANGED <<op, retry, start, ops, last>>

LowError == /\ op # -1 /\ h # -1 /\ faults < MaxFaults
            /\ Fail /\ UNCHANGED <<pos, buf, start, ops>>

Next == \/ \E n \in -1..Size : Read(n)
        \/ \E o \in 0..Size : Seek(o)
        \/ Open \/ LowError \/ \E k \in 0..Size : LowRead(k)

Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ LowError \/ \E k \in 0..Size : LowRead(k))

\* Exactly the bytes of the file, or an error after Limit failures
Exact == /\ last.k = "ok" => last.v = Plain(last.start, IF last.n = -2 THEN -1 ELSE last.n)
         /\ last.k = "err" => last.fails = Limit
Aligned == /\ h # -1 => h = pos
           /\ op # -1 => pos = start + Len(buf) /\ buf = Bytes(start, pos)
Ends == op # -1 ~> op = -1
=============================================================================
