------------------------------ MODULE PathOps -------------------------------
(* The algebra of paths.  Characters are code points; a path is            *)
(*   [r |-> name of the remote (<<>>: local), abs |-> absolute,             *)
(*    parts |-> its components].                                            *)
EXTENDS Integers, Sequences, FiniteSets

Slash == 47
Dot == 46
Up == <<Dot, Dot>>
Bad == [r |-> <<>>, abs |-> FALSE, parts |-> <<<<-1>>>>]
RClone == <<114, 99, 108, 111, 110, 101, 58, 47, 47>>

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* The components of a text, without empty ones and dots
RECURSIVE Split(_, _, _)
Split(s, cur, acc) ==
    LET push == IF cur \in {<<>>, <<Dot>>} THEN acc ELSE Append(acc, cur)
    IN IF s = <<>> THEN push
       ELSE IF Head(s) = Slash THEN Split(Tail(s), <<>>, push)
       ELSE Split(Tail(s), Append(cur, Head(s)), acc)
Comps(s) == Split(s, <<>>, <<>>)

\* Without parent components; the root cannot be left
RECURSIVE Res(_, _)
Res(ps, acc) ==
    IF ps = <<>> THEN acc
    ELSE IF Head(ps) = Up THEN IF acc = <<>> THEN <<<<-1>>>> ELSE Res(Tail(ps), Front(acc))
    ELSE Res(Tail(ps), Append(acc, Head(ps)))
Resolve(p) == LET q == Res(p.parts, <<>>) IN IF q = <<<<-1>>>> THEN Bad ELSE [p EXCEPT !.parts = q]

Parse(s) ==
    IF IsPrefix(RClone, s)
    THEN LET c == Comps(SubSeq(s, Len(RClone) + 1, Len(s)))
         IN IF c = <<>> THEN Bad
            ELSE IF Head(c) = Up THEN Bad
            ELSE Resolve([r |-> Head(c), abs |-> TRUE, parts |-> Tail(c)])
    ELSE [r |-> <<>>, abs |-> s # <<>> /\ s[1] = Slash, parts |-> Comps(s)]

RECURSIVE JoinText(_)
JoinText(ps) == IF Len(ps) = 0 THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<Slash>> \o JoinText(Tail(ps))
Text(p) == IF p.r # <<>> THEN RClone \o p.r \o (IF p.parts = <<>> THEN <<>> ELSE <<Slash>> \o JoinText(p.parts))
           ELSE IF p.abs THEN <<Slash>> \o JoinText(p.parts)
           ELSE IF p.parts = <<>> THEN <<Dot>> ELSE JoinText(p.parts)

\* Joining to a relative path is not supported
Join(p, q) == IF ~p.abs \/ q = Bad THEN Bad
              ELSE IF q.abs THEN q
              ELSE Resolve([p EXCEPT !.parts = @ \o q.parts])
Parent(p) == [p EXCEPT !.parts = IF @ = <<>> THEN @ ELSE Front(@)]
Name(p) == IF p.parts = <<>> THEN <<>> ELSE Last(p.parts)
Absolute(p, cwd) == IF p.abs THEN p ELSE [cwd EXCEPT !.parts = @ \o p.parts]

\* The position of the dot of the suffix, 0 if there is none
DotAt(n) == LET ds == {i \in 2..(Len(n) - 1) : n[i] = Dot /\ \A j \in (i + 1)..Len(n) : n[j] # Dot}
            IN IF ds = {} THEN 0 ELSE CHOOSE i \in ds : TRUE
WithSuffix(p, s) ==
    IF p.parts = <<>> THEN Bad
    ELSE LET n == Name(p)
             d == DotAt(n)
             m == (IF d = 0 THEN n ELSE SubSeq(n, 1, d - 1)) \o s
         IN [p EXCEPT !.parts = Front(@) \o <<m>>]
Relative(p, q) == IF p.r # q.r \/ ~p.abs \/ ~q.abs \/ ~IsPrefix(q.parts, p.parts) THEN Bad
                  ELSE [r |-> <<>>, abs |-> FALSE, parts |-> SubSeq(p.parts, Len(q.parts) + 1, Len(p.parts))]

RECURSIVE LessW(_, _)
LessW(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessW(Tail(a), Tail(b))
RECURSIVE LessP(_, _)
LessP(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN LessW(a[1], b[1]) ELSE LessP(Tail(a), Tail(b))
Less(p, q) == IF p.abs # q.abs THEN p.abs ELSE LessP(p.parts, q.parts)

\* A pattern of one component: items k = c (the character c), q (any), s (any number), i (in the set l), n (not in l)
RECURSIVE MatchW(_, _)
MatchW(pat, w) ==
    IF pat = <<>> THEN w = <<>>
    ELSE LET h == Head(pat)
         IN IF h.k = "s" THEN \E i \in 0..Len(w) : MatchW(Tail(pat), SubSeq(w, i + 1, Len(w)))
            ELSE /\ w # <<>>
                 /\ CASE h.k = "c" -> w[1] = h.l[1]
                      [] h.k = "q" -> TRUE
                      [] h.k = "i" -> \E j \in 1..Len(h.l) : w[1] = h.l[j]
                      [] h.k = "n" -> \A j \in 1..Len(h.l) : w[1] # h.l[j]
                 /\ MatchW(Tail(pat), Tail(w))
\* A pattern: components; k = d: any number of directories, else the items l
RECURSIVE MatchP(_, _)
MatchP(pats, ps) ==
    IF pats = <<>> THEN ps = <<>>
    ELSE IF Head(pats).k = "d" THEN \E i \in 0..Len(ps) : MatchP(Tail(pats), SubSeq(ps, i + 1, Len(ps)))
    ELSE ps # <<>> /\ MatchW(Head(pats).l, ps[1]) /\ MatchP(Tail(pats), Tail(ps))

\* A file system: files [p, c] and directories
Files(fs) == {f.p : f \in fs.files}
Known(fs) == Files(fs) \cup fs.dirs
Content(fs, p) == (CHOOSE f \in fs.files : f.p = p).c
Put(fs, p, c) == [fs EXCEPT !.files = {f \in @ : f.p # p} \cup {[p |-> p, c |-> c]}]
Del(fs, p) == [fs EXCEPT !.files = {f \in @ : f.p # p}]
Glob(fs, p, pats) == {q \in Known(fs) : q.r = p.r /\ q # p /\ IsPrefix(p.parts, q.parts) /\ MatchP(pats, SubSeq(q.parts, Len(p.parts) + 1, Len(q.parts)))}
\* All directories above a remote file exist with it
Implied(fs, r) == UNION {{[f.p EXCEPT !.parts = SubSeq(@, 1, n)] : n \in 0..(Len(f.p.parts) - 1)} : f \in {f \in fs.files : f.p.r = r}}
=============================================================================
