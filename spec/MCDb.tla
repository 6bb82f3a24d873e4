---------------------------------- MODULE MCDb --------------------------------
(***************************************************************************)
(* Exhaustive model of loading from the loss reserving database: the       *)
(* database grows row by row (any subset of Rows, in order), then it is    *)
(* queried with any combination of line, company code, company name, loss  *)
(* field, training flag and triangle kind.  Every query is printed and     *)
(* replayed on a real database file.                                       *)
(***************************************************************************)
EXTENDS EvMisc, Json
CONSTANTS Rows, Lobs, Codes, Names, Losses, Kinds
VARIABLES db, at, q

Row(a, c, n, o, d, i, s, t) == [lob |-> a, code |-> c, name |-> n, origin |-> o, dev |-> d, inc |-> i, paid |-> s, train |-> t]
SixRows == <<Row("comauto", 1767, "Alpha", 1988, 1, "10", "4", 1), Row("comauto", 1767, "Alpha", 1988, 2, "7", "5", 0),
             Row("comauto", 353, "Beta", 1988, 1, "11", "3", 1), Row("wkcomp", 353, "Beta", 1989, 1, "20", "9", 1),
             Row("wkcomp", 86, "Alpha", 1988, 2, "-3", "6", 0), Row("comauto", 1767, "Alpha", 1989, 1, "30", "0", 1)>>
AllLobs == {"*", "comauto", "wkcomp", "othliab"}
AllCodes == {-1, 1767, 353, 99}
AllNames == {"*", "Alpha", "Gamma"}
AllLosses == {"incurred", "paid", "reported"}
AllKinds == {"none", "cum", "incr", "tri"}
FewNames == {"*", "Beta"}
FewLosses == {"paid", "incurred"}
FewKinds == {"none", "cum"}

NoQ == [lob |-> "", code |-> 0, name |-> "", loss |-> "", train |-> FALSE, kind |-> ""]
Init == SInit /\ db = <<>> /\ at = 0 /\ q = NoQ
Grow == /\ at < Len(Rows) /\ q = NoQ /\ at' = at + 1
        /\ (db' = db \/ db' = Append(db, Rows[at + 1])) /\ q' = q
Query == /\ at = Len(Rows) /\ q = NoQ /\ db # <<>>
         /\ \E a \in Lobs : \E c \in Codes : \E n \in Names : \E l \in Losses : \E t \in BOOLEAN : \E k \in Kinds :
              q' = [lob |-> a, code |-> c, name |-> n, loss |-> l, train |-> t, kind |-> k]
         /\ UNCHANGED <<db, at>>
Next == Grow \/ Query
Spec == Init /\ [][Next /\ Look]_<<db, at, q, svars>>

Asked == q # NoQ
Sel == LrdbSel(db, q).all
Wanted(r) == (q.lob \in {"*", r.lob}) /\ (q.code \in {-1, r.code}) /\ (q.name \in {"*", r.name}) /\ (q.train => r.train = 1)
\* Exactly the rows wanted, in the database's order.
SoundComplete == Asked => /\ \A r \in Range1(Sel) : Wanted(r)
                          /\ \A r \in Range1(db) : Wanted(r) => r \in Range1(Sel)
                          /\ Sel = SelectSeq(db, Wanted)
\* The order in which filters apply does not matter to what is selected.
Widening == Asked => \A z \in {[q EXCEPT !.lob = "*"], [q EXCEPT !.code = -1], [q EXCEPT !.name = "*"], [q EXCEPT !.train = FALSE]} :
               Range1(Sel) \subseteq Range1(LrdbSel(db, z).all)
\* A rejected query names something the database lacks, or a wrong choice;
\* with training rows included, an accepted one selects something.
Rejects == Asked => /\ (LrdbBad(db, q) /\ q.loss \in {"incurred", "paid"} /\ q.kind \in {"none", "cum", "incr"})
                          => \A r \in Range1(db) : ~Wanted(r)
                    /\ (~LrdbBad(db, q) /\ ~q.train) => Sel # <<>>
\* The triangle described holds the selected amounts.
RecsOf(s) == [k \in 1..Len(s) |-> <<s[k].origin, s[k].dev, RParse(IF q.loss = "paid" THEN s[k].paid ELSE s[k].inc)>>]
Describes == (Asked /\ ~LrdbBad(db, q) /\ q.kind \in {"cum", "incr"} /\ Sel # <<>>) =>
   LET f == Totals(RecsOf(Sel)) IN
   /\ RSumV(Flat(f.v)) = RSum([k \in 1..Len(Sel) |-> RecsOf(Sel)[k][3]])
   /\ Range1(f.o) = {r.origin : r \in Range1(Sel)} /\ Range1(f.d) = {r.dev : r \in Range1(Sel)}
Emit == Asked => PrintT("IN " \o ToJson([db |-> db, qs |-> <<q>>]))
==============================================================================
