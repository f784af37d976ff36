-------------------------------- MODULE Convert --------------------------------
(* The buffered conversion: at most Procs goroutines at a time read an image   *)
(* each, pixel by pixel, and write its row to the one output under a lock.     *)
EXTENDS Images, Json
CONSTANTS Procs, MaxFolders, MaxImages, Emit
VARIABLES folders,  \* sizes of the class folders
          next,     \* next file to hand out
          running,  \* how many goroutines hold a slot
          wk,       \* state of the goroutine of each file
          lock,     \* who holds the output
          out       \* what has been written: pieces <<file, "pixels"|"label">>
vars == <<folders, next, running, wk, lock, out>>
N == SumOf(folders)
Init == /\ folders = <<>> /\ next = 0 /\ running = 0 /\ wk = <<>> /\ lock = 0 /\ out = <<>>
Layout == next = 0 /\ Len(folders) < MaxFolders
          /\ \E k \in 0..MaxImages : folders' = Append(folders, k) /\ UNCHANGED <<next, running, wk, lock, out>>
Begin == /\ next = 0 /\ N > 0      \* the first image is read by the caller: it has the sizes
         /\ next' = 2 /\ wk' = [i \in 1..N |-> IF i = 1 THEN "done" ELSE "none"]
         /\ out' = <<<<1, "pixels">>, <<1, "label">>>> /\ UNCHANGED <<folders, running, lock>>
Spawn == /\ next > 0 /\ next <= N /\ running < Procs
         /\ running' = running + 1 /\ wk' = [wk EXCEPT ![next] = "reading"] /\ next' = next + 1
         /\ UNCHANGED <<folders, lock, out>>
Take(i) == wk[i] = "reading" /\ lock = 0 /\ lock' = i /\ wk' = [wk EXCEPT ![i] = "locked"]
           /\ UNCHANGED <<folders, next, running, out>>
Pixels(i) == wk[i] = "locked" /\ out' = Append(out, <<i, "pixels">>) /\ wk' = [wk EXCEPT ![i] = "half"]
             /\ UNCHANGED <<folders, next, running, lock>>
Label(i) == wk[i] = "half" /\ out' = Append(out, <<i, "label">>) /\ wk' = [wk EXCEPT ![i] = "wrote"] /\ lock' = 0
            /\ UNCHANGED <<folders, next, running>>
Leave(i) == wk[i] = "wrote" /\ running' = running - 1 /\ wk' = [wk EXCEPT ![i] = "done"]
            /\ UNCHANGED <<folders, next, lock, out>>
Next == Layout \/ Begin \/ Spawn \/ \E i \in 1..Len(wk) : Take(i) \/ Pixels(i) \/ Label(i) \/ Leave(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Spawn \/ \E i \in 1..Len(wk) : Take(i) \/ Pixels(i) \/ Label(i) \/ Leave(i))

Finished == next > 0 /\ next = N + 1 /\ \A i \in 1..N : wk[i] = "done"
\* rows are never torn
Whole == \A k \in 1..Len(out) : (out[k][2] = "label") => k > 1 /\ out[k-1] = <<out[k][1], "pixels">>
Bounded == running <= Procs /\ running = Cardinality({i \in 1..Len(wk) : wk[i] \notin {"none", "done"}})
\* at the end every image has exactly one row
Complete == Finished => \A i \in 1..N : Times(out, <<i, "pixels">>) = 1 /\ Times(out, <<i, "label">>) = 1
Ends == <>(N = 0 \/ Finished)
\* the file accepted: some numbering of the folders explains it
Emitted == (Emit /\ Finished /\ out = SortSeq(out, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] = "pixels" /\ b[2] = "label")))
           => PrintT("@@" \o ToJson([folders |-> folders]))
=============================================================================
