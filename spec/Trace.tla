--------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded executions.  The trace (ndjson, one event per    *)
(* completed public call) drives the session state machine: every event is *)
(* one step, and its recorded response is judged by the clauses of the     *)
(* property under check (PROP).  A step always succeeds; a response the    *)
(* specification does not allow is reported with the names of the clauses  *)
(* it fails, and validation goes on from the recorded response, so that    *)
(* the rest of the execution is checked too.                               *)
(***************************************************************************)
EXTENDS EvTable, Json, IOUtils
VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
p == IOEnv.PROP

Obj(e) == objs[e.h]
Judge(e) ==
    CASE e.op \in {"case", "tri", "setind", "reset"} -> {}
      [] e.op = "unreadable" -> {p \o ".unreadable"}
      [] e.op = "build"     -> BuildClauses(p, e)
      [] e.op \in {"to_cum", "to_incr"} -> ConvertClauses(p, e, Obj(e))
      [] e.op = "roundtrip" -> RoundTripClauses(p, e, Obj(e))
      [] e.op = "to_tbl"    -> TableClauses(p, e, Obj(e))
      [] e.op = "geom"      -> GeomClauses(p, e, Obj(e))
      [] e.op = "diagonal"  -> DiagClauses(p, e, Obj(e))
      [] e.op = "a2a"       -> A2AClauses(p, e, Obj(e))
      [] e.op = "a2aind"    -> IndClauses(p, e, Obj(e))
      [] e.op = "same"      -> Chk(p \o ".changed." \o e.why, ObjSame(e.src, Obj(e)))
      [] e.op = "avgs"      -> AvgsClauses(p, e, Obj(e))
      [] e.op = "base"      -> IF p = "C09" THEN SquareClauses(p, e, Obj(e)) ELSE BaseClauses(p, e, Obj(e))
      [] e.op = "bootsq"    -> SquareClauses(p, e, Obj(e))
      [] e.op = "mack"      -> (CASE p = "C10" -> MackFactorClauses(p, e, Obj(e))
                                  [] p = "C11" -> MackErrorClauses(p, e, Obj(e))
                                  [] p = "C12" -> MackDistClauses(p, e, Obj(e)))
      [] e.op = "mackget"   -> MackGetClauses(p, e, Obj(e))
      [] e.op = "ranks"     -> RanksClauses(p, e, Obj(e))
      [] e.op = "devpcorr"  -> DevpCorrClauses(p, e, Obj(e))
      [] e.op = "class"     -> ClassClauses(p, e, Obj(e))
      [] e.op = "cy"        -> CyClauses(p, e, Obj(e))
      [] e.op = "fit"       -> FitClauses(p, e, Obj(e))
      [] e.op = "detail"    -> ResidDetailClauses(p, e, Obj(e))
      [] e.op = "sims"      -> SimsClauses(p, e, Obj(e))
      [] e.op = "bootsumm"  -> BootSummaryClauses(p, e, Obj(e))
      [] e.op = "bootget"   -> BootGetClauses(p, e, Obj(e))
      [] e.op = "call"      -> CallClauses(p, e)
      [] e.op = "differ"    -> DifferClauses(p, e)
      [] e.op = "drawn"     -> DrawnClauses(p, e, Obj(e))
      [] e.op = "equal"     -> EqualClauses(p, e)
      [] e.op = "load"      -> LoadClauses(p, e)
      [] e.op = "lrdb"      -> LrdbClauses(p, e)
      [] e.op = "list"      -> ListClauses(p, e)
      [] e.op = "relate"    -> RelateClauses(p, e)
      [] e.op = "request"   -> RequestClauses(p, e) \cup AfterClauses(p, e)
      [] e.op = "triplot"   -> TriPlotClauses(p, e, Obj(e)) \cup ShownClauses(p, e) \cup NoChangeClauses(p, e)
      [] e.op = "baseplot"  -> BasePlotClauses(p, e, Obj(e)) \cup ShownClauses(p, e) \cup NoChangeClauses(p, e)
      [] e.op = "bootplot"  -> BootPlotClauses(p, e, Obj(e)) \cup ShownClauses(p, e) \cup NoChangeClauses(p, e)
      [] e.op = "hist"      -> HistClauses(p, e, Obj(e)) \cup ShownClauses(p, e) \cup NoChangeClauses(p, e)
      [] e.op = "mackplot"  -> MackPlotClauses(p, e, Obj(e)) \cup ShownClauses(p, e) \cup NoChangeClauses(p, e)
      [] e.op = "diagnostics" -> DiagnosticsClauses(p, e, Obj(e)) \cup ShownClauses(p, e) \cup NoChangeClauses(p, e)
      [] e.op = "saved"     -> SavedClauses(p, e)
      [] e.op = "law"       -> LawClauses(p, e)
      [] e.op = "printtri"  -> PrintTriClauses(p, e, Obj(e))
      [] e.op = "printsum"  -> PrintSummaryClauses(p, e)
      [] e.op = "agree"     -> AgreeClauses(p, e, Obj(e))
      [] e.op = "extends"   -> ExtendsClauses(p, e, Obj(e), objs[e.h2])
      [] e.op = "foreseen"  -> ForeseenClauses(p, e, Obj(e), objs[e.h2])
      [] e.op = "tableop"   -> TableOpClauses(p, e, Obj(e))
      [] e.op = "corner"    -> CornerClauses(p, e, Obj(e))

\* The step an event takes; responses that are triangles are adopted.
Adoptable(e) == ~Raised(e) /\ FrameShapeOK(e.out)
Step(e) ==
    CASE e.op = "case"   -> Reset
      [] e.op \in {"build", "tri"} -> IF Adoptable(e) THEN Create(e.h, ObjOf(e.out)) ELSE Look
      [] e.op \in {"to_cum", "to_incr"} -> IF Has(e, "h2") /\ Adoptable(e) THEN Create(e.h2, ObjOf(e.out)) ELSE Look
      [] e.op = "setind" -> SetIndicator(e.h, e.o, e.d, e.x)
      [] e.op = "call"   -> IF e.random THEN Look
                            ELSE IF Answered(e.h, e.call) /\ memo[KeyOf(e.h, e.call)] # e.ans THEN Look
                            ELSE Ask(e.h, e.call, e.ans, e.id)
      [] OTHER -> Look

TInit == SInit /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]  bad == Judge(e) IN
              /\ IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", l, e.case, bad>>)
              /\ Step(e)
         /\ l' = l + 1
         /\ IF l = Len(Trace) THEN PrintT(<<"DONE", l>>) ELSE TRUE
TSpec == TInit /\ [][TNext]_<<svars, l>>
==============================================================================
