--------------------------------- MODULE MCSeed -------------------------------
(***************************************************************************)
(* Exhaustive model of randomness.  The program draws from the process's   *)
(* global generator, reseeds it, runs the bootstrap with an integer seed,  *)
(* without one, or with its own generator, and switches a link ratio in    *)
(* between.  A random stream is modelled by how it was seeded and how many *)
(* draws were taken from it; a run without a seed uses entropy, modelled   *)
(* by a fresh stream.  Every history is printed and replayed.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Seeds, MaxLen
VARIABLES hist, glob, own, ind, entropy, told
vars == <<hist, glob, own, ind, entropy, told>>
SomeSeeds == {0, 7}

Init == hist = <<>> /\ glob = <<"g", 0>> /\ own = <<"o", 0>> /\ ind = 1 /\ entropy = 0 /\ told = <<>>
Do(a) == hist' = Append(hist, a)
\* A run is determined by the triangle's inclusions and the stream it reads.
Run(stream) == <<ind, stream>>
Seeded(s) == /\ Do(<<"seed", s>>) /\ told' = Append(told, <<"seed", s, ind, Run(<<"s", s>>)>>)
             /\ UNCHANGED <<glob, own, ind, entropy>>
Unseeded  == /\ Do(<<"none", 0>>) /\ entropy' = entropy + 1
             /\ told' = Append(told, <<"none", entropy, ind, Run(<<"e", entropy>>)>>)
             /\ UNCHANGED <<glob, own, ind>>
Passed    == /\ Do(<<"gen", 0>>) /\ own' = <<own[1], own[2] + 1>>
             /\ told' = Append(told, <<"gen", own[2], ind, Run(own)>>)
             /\ UNCHANGED <<glob, ind, entropy>>
Draw      == Do(<<"draw", 0>>) /\ glob' = <<glob[1], glob[2] + 1>> /\ UNCHANGED <<own, ind, entropy, told>>
Reseed    == Do(<<"reseed", 5>>) /\ glob' = <<"g5", 0>> /\ UNCHANGED <<own, ind, entropy, told>>
Switch    == Do(<<"switch", 1 - ind>>) /\ ind' = 1 - ind /\ UNCHANGED <<glob, own, entropy, told>>
Next == /\ Len(hist) < MaxLen
        /\ (\E s \in Seeds : Seeded(s)) \/ Unseeded \/ Passed \/ Draw \/ Reseed \/ Switch
Spec == Init /\ [][Next]_vars

SameSeedSameRun == \A i \in 1..Len(told) : \A k \in 1..Len(told) :
   (told[i][1] = "seed" /\ told[k][1] = "seed" /\ told[i][3] = told[k][3]) =>
      ((told[i][2] = told[k][2]) <=> (told[i][4] = told[k][4]))
UnseededDiffer == \A i \in 1..Len(told) : \A k \in 1..Len(told) :
   (i # k /\ told[i][1] = "none" /\ told[k][1] \in {"none", "seed"}) => told[i][4] # told[k][4]
GeneratorAdvances == \A i \in 1..Len(told) : \A k \in 1..Len(told) :
   (i # k /\ told[i][1] = "gen" /\ told[k][1] = "gen") => told[i][4] # told[k][4]
GlobalOnlyByProgram == [][(glob' # glob) => (hist'[Len(hist')][1] \in {"draw", "reseed"})]_vars
OwnOnlyWhenPassed == [][(own' # own) => (hist'[Len(hist')][1] = "gen")]_vars

Runs == {k \in 1..Len(hist) : hist[k][1] \in {"seed", "none", "gen"}}
Emit == (Len(hist) = MaxLen /\ \E i \in Runs : \E k \in Runs : i < k) => PrintT("IN " \o ToJson([hist |-> hist]))
==============================================================================
