------------------------------- MODULE MCSession ------------------------------
(***************************************************************************)
(* Exhaustive model of sessions: two triangles with equal contents, asked  *)
(* any call in any order while ratios of the first are excluded, included  *)
(* again, or an exclusion moves from one ratio to another.  Every history  *)
(* of MaxLen steps that ends by repeating a call made before a change is   *)
(* printed and replayed into the real library, where every answer is       *)
(* compared with the memo and with a triangle that has no history.         *)
(*                                                                         *)
(* The library is modelled with the cache it is free to keep: Cache says   *)
(* by what a kept intermediate result is looked up.  "none" (recompute)    *)
(* and "value" (the whole indicator) satisfy the laws; "count" (how many   *)
(* ratios take part) and "once" (never again) do not, which                *)
(* MCSessionCount.cfg and MCSessionOnce.cfg show.                          *)
(***************************************************************************)
EXTENDS Session, Json
CONSTANTS Calls, Spots, MaxLen, Cache
VARIABLES hist, cache, told

AllCalls == {"base", "series", "mack", "boot", "avgs", "geom", "ranks", "incr"}
SomeCalls == {"base", "avgs", "boot"}
ThreeSpots == {<<1, 1>>, <<2, 1>>, <<1, 2>>}
TwoSpots == {<<1, 1>>, <<2, 1>>}

F0 == MkFrame(<<1, 2, 3, 4>>, <<1, 2, 3, 4>>, LAMBDA i, j : IF i + j <= 5 THEN RI(i * j) ELSE RNaN)
T0 == TLCEval([kind |-> "cum", names |-> <<"o", "d", "v">>, tri |-> F0, ind |-> FullInd(A2A(F0))])
IndOf(h) == objs[h].ind
NIn(m) == Cardinality({c \in (1..3) \X (1..3) : m[c[1]][c[2]] = 1})
\* What a call should answer: a function of the object's value and the call.
True(h, c) == <<objs[h].ind, c>>
CacheKey(h, c) == CASE Cache = "value" -> <<h, c, objs[h].ind>>
                    [] Cache = "count" -> <<h, c, NIn(objs[h].ind)>>
                    [] Cache = "once"  -> <<h, c, 0>>
                    [] Cache = "none"  -> <<h, c, Len(hist), "fresh">>
Said(h, c) == IF CacheKey(h, c) \in DOMAIN cache THEN cache[CacheKey(h, c)] ELSE True(h, c)

Init == /\ objs = (1 :> T0) @@ (2 :> T0) /\ memo = <<>> /\ kept = <<>>
        /\ hist = <<>> /\ cache = <<>> /\ told = <<>>
AskOf(h, c) ==
    /\ memo' = IF Answered(h, c) THEN memo ELSE (KeyOf(h, c) :> Said(h, c)) @@ memo
    /\ kept' = ((Len(hist) + 1) :> Said(h, c)) @@ kept
    /\ told' = Append(told, <<h, c, objs[h].ind, Said(h, c)>>)
    /\ cache' = (CacheKey(h, c) :> Said(h, c)) @@ cache
    /\ hist' = Append(hist, <<"ask", h, c>>)
    /\ UNCHANGED objs
Flip(m, s) == [m EXCEPT ![s[1]][s[2]] = 1 - @]
Toggle(s) ==
    /\ SetIndicator(1, s[1], s[2], 1 - IndOf(1)[s[1]][s[2]])
    /\ hist' = Append(hist, <<"set", 1, s[1], s[2], 1 - IndOf(1)[s[1]][s[2]]>>)
    /\ UNCHANGED <<cache, told>>
Swap(s, t) ==
    /\ IndOf(1)[s[1]][s[2]] = 0 /\ IndOf(1)[t[1]][t[2]] = 1
    /\ objs' = [objs EXCEPT ![1].ind = Flip(Flip(@, s), t)]
    /\ hist' = Append(hist, <<"swap", 1, s[1], s[2], t[1], t[2]>>)
    /\ UNCHANGED <<memo, kept, cache, told>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E h \in {1, 2} : \E c \in Calls : AskOf(h, c)
           \/ \E s \in Spots : Toggle(s)
           \/ \E s \in Spots : \E t \in Spots : Swap(s, t)
vars == <<objs, memo, kept, hist, cache, told>>
Spec == Init /\ [][Next]_vars

\* Answers are a function of value and call.
Pure == \A k \in 1..Len(told) : told[k][4] = <<told[k][3], told[k][2]>>
Repeats == \A k \in 1..Len(told) : \A q \in 1..Len(told) :
              (told[k][2] = told[q][2] /\ told[k][3] = told[q][3]) => told[k][4] = told[q][4]
\* Asking changes no triangle; the twin is never changed.
TwinStays == objs[2] = T0
OnlySwitches == [][(objs' # objs) => (hist'[Len(hist')][1] \in {"set", "swap"})]_vars
KeptStay == [][\A i \in DOMAIN kept : i \in DOMAIN kept' /\ kept'[i] = kept[i]]_vars
\* Switching back restores earlier answers.
Restores == \A k \in 1..Len(hist) : (k = Len(hist) /\ hist[k][1] = "ask" /\ Answered(hist[k][2], hist[k][3]))
              => memo[KeyOf(hist[k][2], hist[k][3])] = told[Len(told)][4]

Final == hist[Len(hist)]
Worth == /\ Len(hist) = MaxLen /\ Final[1] = "ask"
         /\ \E k \in 1..(MaxLen - 2) : /\ hist[k][1] = "ask" /\ hist[k][3] = Final[3] /\ hist[k][2] = Final[2]
                                       /\ \E q \in k..(MaxLen - 1) : hist[q][1] # "ask"
Emit == Worth => PrintT("IN " \o ToJson([hist |-> hist]))
==============================================================================
