------------------------------ MODULE MC_Download ------------------------------
(***************************************************************************)
(* All short histories of downloads, datasets and failures, printed for    *)
(* replay.  The download itself is modelled in steps, a crash of the       *)
(* connection possible at each of them: a file under its own name is never *)
(* partial, and what failed can be tried again.                            *)
(***************************************************************************)
EXTENDS Download, Json
CONSTANTS Depth, Emit
VARIABLES hist, part, doing   \* part: the unfinished file; doing: the download under way
vars == <<disk, dirs, hist, part, doing>>
Idle == [f |-> <<>>, c |-> 0, left |-> 0]
Files == << <<"a.data">>, <<"d", "u1">>, <<"no", "a.data">> >>
User == <<"mine.data">>
Other == <<"a.data.part">>      \* next to what is downloaded
Init == /\ disk = (User :> 0 @@ Other :> 0) /\ dirs = {<<>>, <<"d">>, <<"v1.0">>} /\ hist = <<>> /\ part = 0 /\ doing = Idle

Ops == [op : {"get"}, to : {"a", "d", "v", "no", "mine"}, url : {1, 2}, over : BOOLEAN, fault : {Works} \cup Faults]
       \cup [op : {"set"}, n : {1, 2}, fault : {Works} \cup Faults]
       \cup [op : {"pair"}, n : {1}, fault : {Works, "refused", "cut"}, fault2 : {Works, "status"}]
F(o) == CASE o.op = "get" /\ o.to = "a" -> <<"a.data">>
          [] o.op = "get" /\ o.to = "mine" -> User
          [] o.op = "get" /\ o.to = "no" -> <<"no", "a.data">>
          [] o.op = "get" /\ o.to = "d" -> Target(<<"d">>, FALSE, "u" \o ToString(o.url))
          [] o.op = "get" /\ o.to = "v" -> Target(<<"v1.0">>, TRUE, "u" \o ToString(o.url))
          [] o.op = "set" -> Append(Cache, "s" \o ToString(o.n))
Log(o) == hist' = Append(hist, o)

\* big steps, for get and set
Skip(o) == /\ Skipped(F(o), o.over) /\ UNCHANGED <<disk, dirs, part, doing>>
Fail(o) == /\ ~Succeeds(F(o), o.over, o.fault) /\ o.fault # "cut" /\ UNCHANGED <<disk, dirs, part, doing>>
Begin(o) == /\ ~Skipped(F(o), o.over) /\ Parent(F(o)) \in dirs /\ o.fault \in {Works, "cut"}
            /\ doing' = [f |-> F(o), c |-> o.url, left |-> IF o.fault = "cut" THEN -2 ELSE 2]
            /\ part' = 0 /\ UNCHANGED <<disk, dirs>>
GetOp == \E o \in {x \in Ops : x.op = "get"} : (Skip(o) \/ Fail(o) \/ Begin(o)) /\ Log(o)
Chunk == /\ doing.left > 0 /\ part' = part + 1 /\ doing' = [doing EXCEPT !.left = @ - 1] /\ UNCHANGED <<disk, dirs, hist>>
Finish == /\ doing # Idle /\ doing.left = 0 /\ disk' = Put(doing.f, doing.c) /\ part' = 0 /\ doing' = Idle /\ UNCHANGED <<dirs, hist>>
Cut == /\ doing.left < 0 /\ part' = 0 /\ doing' = Idle /\ UNCHANGED <<disk, dirs, hist>>
SetOp == \E o \in {x \in Ops : x.op = "set"} :
           /\ Dataset(F(o), 10 + o.n, o.fault, IF Held(F(o)) THEN disk[F(o)] ELSE IF o.fault = Works THEN 10 + o.n ELSE -1)
           /\ Log(o) /\ UNCHANGED <<part, doing>>
P1 == Append(Cache, "p1")
P2 == Append(Cache, "p2")
PairOp == \E o \in {x \in Ops : x.op = "pair"} :
            LET ok == (Held(P1) \/ o.fault = Works) /\ (Held(P2) \/ o.fault2 = Works) IN
            /\ Pair(P1, 21, o.fault, P2, 22, o.fault2, IF ok THEN 21 ELSE -1, IF ok THEN 22 ELSE -1)
            /\ Log(o) /\ UNCHANGED <<part, doing>>
Next == (doing = Idle /\ Len(hist) < Depth /\ (GetOp \/ SetOp \/ PairOp)) \/ Chunk \/ Finish \/ Cut
MCSpec == Init /\ [][Next]_vars /\ WF_vars(Chunk \/ Finish \/ Cut)

\* nothing but whole contents, and only of what was asked for
Whole == \A f \in DOMAIN disk : disk[f] \in {0, 1, 2, 11, 12, 21, 22}
OtherKept == disk[Other] = 0
UserKept == disk[User] # 0 => \E i \in 1..Len(hist) : hist[i].op = "get" /\ hist[i].to = "mine" /\ hist[i].over /\ hist[i].fault = Works
\* a file that is there stays there; contents change only by an override
Stays == [][\A f \in DOMAIN disk : f \in DOMAIN disk']_vars
Quiet == [][(doing = Idle /\ Len(hist') > Len(hist) /\ hist'[Len(hist')].fault # Works /\ hist'[Len(hist')].op # "pair") => disk' = disk]_vars
Ends == []<>(doing = Idle)
Emitted == (Emit /\ doing = Idle /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
