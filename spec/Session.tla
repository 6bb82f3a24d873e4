-------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session: the triangles a program holds and the calls it makes on      *)
(* them.  This is the state machine behind both the exhaustive models      *)
(* (MC*.tla) and trace validation (Trace.tla).                             *)
(*                                                                         *)
(*   objs   live triangles: handle -> object (see EvTri)                   *)
(*   memo   what deterministic calls answered: <<object, call>> -> answer  *)
(*   kept   answers still held by the program: answer id -> contents       *)
(*                                                                         *)
(* The library promises that objects change through SetIndicator only,     *)
(* that kept answers never change, and that an answer is a function of     *)
(* the object's value and the call.                                        *)
(***************************************************************************)
EXTENDS EvBoot
VARIABLES objs, memo, kept
svars == <<objs, memo, kept>>

SInit == objs = <<>> /\ memo = <<>> /\ kept = <<>>
Reset == objs' = <<>> /\ memo' = <<>> /\ kept' = <<>>

Live(h) == h \in DOMAIN objs
\* A triangle comes into being: built from data, loaded, or converted.
Create(h, b) == /\ objs' = (h :> b) @@ objs
                /\ UNCHANGED <<memo, kept>>
\* One entry of one triangle's inclusion indicator is assigned.
SetIndicator(h, o, d, x) == /\ Live(h) /\ objs[h].kind = "cum"
                            /\ objs' = [objs EXCEPT ![h] = SetInd(@, o, d, x)]
                            /\ UNCHANGED <<memo, kept>>
\* A deterministic call on triangle h (or on no triangle: h = 0).
KeyOf(h, call) == <<IF Live(h) THEN objs[h] ELSE [kind |-> "none"], call>>
Answered(h, call) == KeyOf(h, call) \in DOMAIN memo
Ask(h, call, ans, id) ==
    /\ (Answered(h, call) => memo[KeyOf(h, call)] = ans)
    /\ memo' = (KeyOf(h, call) :> ans) @@ memo
    /\ kept' = IF id = 0 THEN kept ELSE (id :> ans) @@ kept
    /\ UNCHANGED objs
\* A call whose answer is not to be compared (random, or only observed).
Look == UNCHANGED svars
==============================================================================
