------------------------------- MODULE Download -------------------------------
(***************************************************************************)
(* Downloads into a directory, and the datasets that are downloaded once   *)
(* and then read from there.  disk maps each file to its contents, a       *)
(* number that stands for one URL's contents (0: a file of the user's).    *)
(* The network may fail: refuse the connection, answer with an error       *)
(* page, or break off in the middle.  Then the call says so and leaves     *)
(* the directory as it was, so that trying again can succeed.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
VARIABLES disk,    \* file |-> contents
          dirs     \* directories that exist
dlVars == <<disk, dirs>>
Holds(p) == p = TRUE
Works == "none"
Faults == {"refused", "status", "cut"}

Parent(parts) == SubSeq(parts, 1, Len(parts) - 1)
Put(f, c) == [x \in DOMAIN disk \cup {f} |-> IF x = f THEN c ELSE disk[x]]

\* one download of url's contents c to file f; what happens to the disk
Skipped(f, override) == f \in DOMAIN disk /\ ~override
Succeeds(f, override, fault) == Skipped(f, override) \/ (fault = Works /\ Parent(f) \in dirs)
After(f, c, override, fault) ==
  IF Skipped(f, override) \/ ~Succeeds(f, override, fault) THEN disk ELSE Put(f, c)

\* a path with an extension names the file, one without (and a directory that
\* exists, whatever its name) a directory
Target(p, ext, name) == IF ext /\ p \notin dirs THEN p ELSE Append(p, name)
Get(p, ext, name, c, override, fault, ok, asked) ==
  LET f == Target(p, ext, name) IN
  /\ Holds(ok = Succeeds(f, override, fault))
  /\ Holds(Skipped(f, override) => asked = 0)
  /\ disk' = After(f, c, override, fault)
  /\ UNCHANGED dirs

\* a dataset: downloaded unless it is there, then read
Cache == <<".cache", "data">>
WithCache == dirs \cup {<<".cache">>, Cache}
Held(f) == f \in DOMAIN disk
Dataset(f, c, fault, got) ==
  /\ dirs' = WithCache
  /\ IF Held(f) THEN Holds(got = disk[f]) /\ UNCHANGED disk
     ELSE IF fault = Works THEN Holds(got = c) /\ disk' = Put(f, c)
     ELSE Holds(got = -1) /\ UNCHANGED disk
\* a pair of them: both or neither
Pair(f1, c1, fault1, f2, c2, fault2, got1, got2) ==
  LET has1 == Held(f1) \/ fault1 = Works
      has2 == Held(f2) \/ fault2 = Works
      v1 == IF Held(f1) THEN disk[f1] ELSE c1
      v2 == IF Held(f2) THEN disk[f2] ELSE c2
  IN /\ dirs' = WithCache
     /\ Holds(IF has1 /\ has2 THEN got1 = v1 /\ got2 = v2 ELSE got1 = -1 /\ got2 = -1)
     /\ \* what could be had may be kept
        \/ disk' = [x \in DOMAIN disk \cup (IF has1 THEN {f1} ELSE {}) \cup (IF has2 THEN {f2} ELSE {}) |->
                      IF x = f1 THEN v1 ELSE IF x = f2 THEN v2 ELSE disk[x]]
        \/ /\ ~has2 \/ ~has1
           /\ disk' = [x \in DOMAIN disk \cup (IF has1 THEN {f1} ELSE {}) |-> IF x = f1 THEN v1 ELSE disk[x]]
=============================================================================
