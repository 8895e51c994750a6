--------------------------- MODULE CrystalRouterTrace ---------------------------
(* Recorded calls of the crystal router against the delivery relation.      *)
EXTENDS TraceBase

CR == INSTANCE CrystalRouter WITH MaxP <- 1, MinP <- 1, Slots <- 1, MaxTotal <- 0,
        Emit <- FALSE, np <- 1, lo <- <<>>, size <- <<>>, box <- <<>>, buf <- 1,
        phase <- "done", sent <- {}

(* messages of a case: the id of slot j of device d is d*L + j (0-based j)  *)
Sent(c) == {[src |-> d - 1, id |-> (d - 1) * c.L + k - 1, tgt |-> c.targets[d][k]] :
              <<d, k>> \in {<<d, k>> \in (1..c.P) \X (1..c.L) : k \in DOMAIN c.targets[d]}}

(* multiset of the ids that must arrive on device q, as a set + a count     *)
Ids(S) == {m.id : m \in S}
BagIs(seq, S) == Len(seq) = Cardinality(S) /\ {seq[i] : i \in DOMAIN seq} = S

Payload(id) == <<id, 3 * id + 1>>      \* the float leaf of message id, times 2
Small(id) == id % 100                  \* the int8 leaf
Flag(id) == id % 3 = 0                 \* the bool leaf

Leg(name, c, r, expected(_), from(_)) ==
  Clause(name \o "_devices", Len(r.n) = c.P /\ Len(r.ids) = c.P)
  \cup (IF ~(Len(r.n) = c.P /\ Len(r.ids) = c.P) THEN {} ELSE
    UNION {
      Clause(name \o "_count", r.n[q] = Cardinality(expected(q - 1)))
      \cup Clause(name \o "_delivered", BagIs(r.ids[q], expected(q - 1)))
      \cup Clause(name \o "_leaves_aligned",
             /\ \A f \in {"pair", "small", "flag"} : Len(r[f][q]) = Len(r.ids[q])
             /\ \A i \in DOMAIN r.ids[q] :
                  LET id == r.ids[q][i]
                  IN  /\ r.pair[q][i] = Payload(id)
                      /\ r.small[q][i] = Small(id)
                      /\ r.flag[q][i] = Flag(id))
      \cup (IF "source" \notin DOMAIN r THEN {} ELSE
            Clause(name \o "_source",
             /\ Len(r.source[q]) = Len(r.ids[q])
             /\ \A i \in DOMAIN r.ids[q] : r.source[q][i] = from(r.ids[q][i])))
      : q \in 1..c.P})

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET c == t.case
      sent == Sent(c)
      arrive(q) == Ids(CR!Addressed(sent, q))
      home(q) == {m.id : m \in {m \in sent : m.src = q}}
      src(id) == id \div c.L
      tgt(id) == (CHOOSE m \in sent : m.id = id).tgt
      known == \A leg \in {"out", "nosource", "back"} : \A q \in DOMAIN t[leg].ids :
                 \A i \in DOMAIN t[leg].ids[q] : t[leg].ids[q][i] \in Ids(sent)
  IN  IF ~known THEN {"only_sent_data"}
      ELSE Leg("out", c, t.out, arrive, src)
           \cup Leg("nosource", c, t.nosource, arrive, src)
           \cup Leg("back", c, t.back, home, tgt)
           \cup Clause("dtypes", t.dtypes = t.dtypes_in)
=============================================================================
