--------------------------------- MODULE Items ---------------------------------
(* Points, slots and units as values.  A state is a pool of items; a step builds  *)
(* one (or is refused), moves one by a unit, changes the zone or an index of one.  *)
(* Coordinates are rationals (times relative to a base instant, in seconds).      *)
EXTENDS Rat
None_ == <<>>
IsTime(cls) == cls \in {"TimePoint", "DataTimePoint", "TimeSlot", "DataTimeSlot"}
IsData(cls) == cls \in {"DataPoint", "DataTimePoint", "DataSlot", "DataTimeSlot"}
PointClasses == {"Point", "TimePoint", "DataPoint", "DataTimePoint"}
SlotClasses == {"Slot", "TimeSlot", "DataSlot", "DataTimeSlot"}
Known(z) == z \notin {"", "Nowhere/Land"}
\* an item: its class, coordinates, end (slots), zone (time), unit (slots), data (a kind, labels and values) and indexes (by name)
\* a unit: [k |-> "unit" / "time", v |-> its values]
Is(it, k) == it.k = k
\* indexes: a sequence of [n, x] with distinct names; the data loss is the index of that name
SetIx(ix, n, x) == IF \E j \in 1..Len(ix) : ix[j].n = n THEN [j \in 1..Len(ix) |-> IF ix[j].n = n THEN [n |-> n, x |-> x] ELSE ix[j]]
                   ELSE Append(ix, [n |-> n, x |-> x])
LossOf(it) == LET h == {j \in 1..Len(it.ix) : it.ix[j].n = "data_loss"} IN IF h = {} THEN <<>> ELSE it.ix[CHOOSE j \in h : TRUE].x
IxSet(it) == {it.ix[j] : j \in 1..Len(it.ix)}
\* ---- what both families share: data and indexes -------------------------------------------------
DataOk(a) == IF IsData(a.cls) THEN a.data # <<>> /\ a.ix.k # "list"
             ELSE a.data = <<>> /\ a.ix.k = "absent" /\ a.loss.k = "absent"
Indexes(a) == LET ix == IF a.ix.k = "dict" THEN a.ix.v ELSE <<>>
              IN IF a.loss.k = "set" THEN SetIx(ix, "data_loss", a.loss.x) ELSE ix
\* ---- points: from coordinates, an epoch time, a date or another point in time -----------------------
\* a: [cls, form, c, z, src, tz, data, ix, loss]
PointOk(a, pool) ==
    /\ DataOk(a)
    /\ IF IsTime(a.cls)
       THEN /\ a.tz # "Nowhere/Land"
            /\ CASE a.form \in {"args", "t"} -> Len(a.c) = 1
                 [] a.form = "dt" -> Known(a.z)
                 [] a.form = "item" -> Is(pool[a.src], "point") /\ IsTime(pool[a.src].cls)
                 [] OTHER -> FALSE
       ELSE a.form = "args" /\ Len(a.c) > 0 /\ a.tz = ""
NewPoint(a, pool) ==
    [k |-> "point", cls |-> a.cls, c |-> IF a.form = "item" THEN pool[a.src].c ELSE a.c, e |-> <<>>,
     tz |-> IF ~IsTime(a.cls) THEN "" ELSE IF a.tz # "" THEN a.tz ELSE IF a.form = "dt" THEN a.z ELSE IF a.form = "item" THEN pool[a.src].tz ELSE "UTC",
     u |-> <<>>, data |-> a.data, ix |-> Indexes(a)]
\* ---- slots: from a start and an end, or a start and a unit ---------------------------------------------
\* a: [cls, form, src, end, c, z, tz, unit, data, ix, loss]; src and end are positions in the pool, 0 (absent) or -1 (not a point)
Endpoint(a, j, pool) == j > 0 /\ Is(pool[j], "point") /\ (IsTime(a.cls) => IsTime(pool[j].cls))
StartOk(a, pool) == IF a.form = "ends" THEN Endpoint(a, a.src, pool)
                    ELSE IsTime(a.cls) /\ a.tz # "Nowhere/Land" /\ (a.form = "dt" => Known(a.z))
StartC(a, pool) == IF a.form = "ends" THEN pool[a.src].c ELSE a.c
StartTz(a, pool) == IF a.form = "ends" THEN pool[a.src].tz ELSE IF a.tz # "" THEN a.tz ELSE IF a.form = "dt" THEN a.z ELSE "UTC"
SlotOk(a, pool) ==
    /\ DataOk(a) /\ StartOk(a, pool)
    /\ a.unit # <<>> => (a.unit[1].k # "number" /\ (IsTime(a.cls) => a.unit[1].k = "time"))
    /\ IF a.end = 0 THEN a.unit # <<>> /\ Len(StartC(a, pool)) = 1
       ELSE /\ Endpoint(a, a.end, pool) /\ Len(pool[a.end].c) = Len(StartC(a, pool))
            /\ pool[a.end].c # StartC(a, pool)
            /\ IsTime(a.cls) => pool[a.end].tz = StartTz(a, pool)
NewSlot(a, pool) ==
    LET c == StartC(a, pool) IN
    [k |-> "slot", cls |-> a.cls, c |-> c,
     e |-> IF a.end = 0 THEN <<RAdd(c[1], a.unit[1].v[1])>> ELSE pool[a.end].c,
     tz |-> IF IsTime(a.cls) THEN StartTz(a, pool) ELSE "", u |-> a.unit, data |-> a.data, ix |-> Indexes(a)]
\* ---- what is derived ------------------------------------------------------------------------------------
Length(it) == LET d == [j \in 1..Len(it.c) |-> RSub(it.e[j], it.c[j])] IN RDiv(RSumSeq(d), R(Len(it.c)))
UnitOf(it) == IF it.u # <<>> THEN it.u[1]
              ELSE [k |-> IF IsTime(it.cls) THEN "time" ELSE "unit", v |-> [j \in 1..Len(it.c) |-> RSub(it.e[j], it.c[j])]]
Labels(it) == it.data[1].l
\* equal items: the same kind of thing in the same place, with the same data (if both carry some)
Eq(a, b) == /\ a.k = b.k /\ a.c = b.c /\ a.e = b.e
            /\ (a.data # <<>> /\ b.data # <<>>) => a.data = b.data
\* later points
Comparable(a, b) == Is(a, "point") /\ Is(b, "point") /\ Len(a.c) = 1 /\ Len(b.c) = 1 /\ IsTime(a.cls) = IsTime(b.cls)
Gt(a, b) == RLt(b.c[1], a.c[1])
\* ---- moving a point by a unit (forth and back) -----------------------------------------------------------
MoveOk(it, unit) == /\ Is(it, "point") /\ Len(it.c) = 1
                    /\ IF unit.k = "time" THEN IsTime(it.cls) ELSE ~IsData(it.cls)
Moved(it, unit, sign) == [k |-> "point", cls |-> IF IsTime(it.cls) THEN "TimePoint" ELSE "Point",
                          c |-> <<IF sign > 0 THEN RAdd(it.c[1], unit.v[1]) ELSE RSub(it.c[1], unit.v[1])>>,
                          e |-> <<>>, tz |-> it.tz, u |-> <<>>, data |-> <<>>, ix |-> <<>>]
\* ---- arithmetic of generic units: that of their values ---------------------------------------------------
\* f: "add", "sub", "mul", "div" or "eq" between x and y, of kinds "unit" or "number" (at least one a unit)
ArithOk(f, x, y) == f = "div" => y.v[1] # Zero
Arith(f, x, y) == LET a == x.v[1] b == y.v[1] IN
    CASE f = "add" -> RAdd(a, b) [] f = "sub" -> RSub(a, b) [] f = "mul" -> RMul(a, b) [] f = "div" -> RDiv(a, b)
      [] f = "eq" -> IF a = b THEN One ELSE Zero
\* ---- the steps ---------------------------------------------------------------------------------------------
\* result: [ok, pool]
No(pool) == [ok |-> FALSE, pool |-> pool]
Apply(pool, o) ==
    CASE o.op = "arith" -> [ok |-> ArithOk(o.f, o.x, o.y), pool |-> pool]
      [] o.op = "point" -> IF PointOk(o.a, pool) THEN [ok |-> TRUE, pool |-> Append(pool, NewPoint(o.a, pool))] ELSE No(pool)
      [] o.op = "slot" -> IF SlotOk(o.a, pool) THEN [ok |-> TRUE, pool |-> Append(pool, NewSlot(o.a, pool))] ELSE No(pool)
      [] o.op = "move" -> IF MoveOk(pool[o.i], o.unit) THEN [ok |-> TRUE, pool |-> Append(pool, Moved(pool[o.i], o.unit, o.sign))] ELSE No(pool)
      [] o.op = "zone" -> IF IsTime(pool[o.i].cls) /\ Known(o.z) THEN [ok |-> TRUE, pool |-> [pool EXCEPT ![o.i].tz = o.z]] ELSE No(pool)
      [] o.op = "index" -> IF IsData(pool[o.i].cls) THEN [ok |-> TRUE, pool |-> [pool EXCEPT ![o.i].ix = SetIx(@, o.n, o.x)]] ELSE No(pool)
=============================================================================
