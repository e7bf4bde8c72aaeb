----------------------------- MODULE TarShard -----------------------------
(***************************************************************************)
(* A shard is a sequence of tar entries [k, b, x, c]: k = "f" is a sample  *)
(* file with base name b, part x and content c; other kinds (directories,  *)
(* metadata, names without a part, links) are ignored.  Consecutive files  *)
(* of one base name are a sample.  The reader below scans the entries of a *)
(* range of samples and hands out one sample per call, leaving out the     *)
(* excluded ones, and can be stopped and continued after any sample.       *)
(* Checked: it yields exactly the samples of the range.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsFile(e) == e.k = "f"
Files(es) == SelectSeq(es, IsFile)
\* the samples of a sequence of entries: sequence of [b, parts]
Samples(es) ==
    LET fs == Files(es)
        S[k \in 0..Len(fs)] ==
            IF k = 0 THEN <<>>
            ELSE LET r == S[k - 1]  e == fs[k]
                 IN IF r # <<>> /\ r[Len(r)].b = e.b
                    THEN [r EXCEPT ![Len(r)].parts = Append(@, <<e.x, e.c>>)]
                    ELSE Append(r, [b |-> e.b, parts |-> <<<<e.x, e.c>>>>])
    IN S[Len(fs)]
\* position of the first entry of each sample, and the end
Starts(es) ==
    LET S[k \in 0..Len(es)] ==
            IF k = 0 THEN [st |-> <<>>, last |-> 0]
            ELSE LET r == S[k - 1]  e == es[k]
                 IN IF e.k = "f" /\ e.b # r.last THEN [st |-> Append(r.st, k), last |-> e.b] ELSE r
    IN S[Len(es)].st
\* what reading samples off+1 .. off+cnt delivers: pairs <<index from 0, sample>>
Filter(s, filt) == [b |-> s.b, parts |-> SelectSeq(s.parts, LAMBDA p : p[1] \in filt)]
Expected(es, off, cnt, excl, filt) ==
    LET ss == Samples(es)
        E[k \in 0..cnt] == IF k = 0 THEN <<>>
                           ELSE IF ss[off + k].b \in excl THEN E[k - 1]
                           ELSE Append(E[k - 1], <<off + k - 1, Filter(ss[off + k], filt)>>)
    IN E[cnt]

=============================================================================
