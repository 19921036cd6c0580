-------------------------------- MODULE ItemsMC --------------------------------
(* Every short history of building items from small arguments, and the laws of    *)
(* the relations between them.                                                     *)
EXTENDS Items, Json, IOUtils, TLC
Depth == atoi(IOEnv.N)
VARIABLES pool, hist
D1 == [k |-> "list", l |-> <<"0">>, v |-> <<One>>]
D2 == [k |-> "dict", l |-> <<"a", "b">>, v |-> <<One, Zero>>]
NoIx == [k |-> "absent", v |-> <<>>]
NoLoss == [k |-> "absent", x |-> <<>>]
PA(cls, form, c, z, src, tz, data, ix, loss) == [op |-> "point", a |-> [cls |-> cls, form |-> form, c |-> c, z |-> z, src |-> src, tz |-> tz, data |-> data, ix |-> ix, loss |-> loss,
                                                  end |-> 0, unit |-> <<>>], i |-> 0, unit |-> <<>>, sign |-> 0, z |-> "", n |-> "", x |-> <<>>]
SA(cls, form, src, end, c, z, tz, unit, data) == [op |-> "slot", a |-> [cls |-> cls, form |-> form, c |-> c, z |-> z, src |-> src, tz |-> tz, data |-> data, ix |-> NoIx, loss |-> NoLoss,
                                                  end |-> end, unit |-> unit], i |-> 0, unit |-> <<>>, sign |-> 0, z |-> "", n |-> "", x |-> <<>>]
OtherOp(op, i, unit, sign, z, n, x) == [op |-> op, a |-> [cls |-> ""], i |-> i, unit |-> unit, sign |-> sign, z |-> z, n |-> n, x |-> x]
U(k, n) == [k |-> k, v |-> <<R(n)>>]
Idx == 1..Len(pool)
PointOps ==
    {PA("Point", "args", c, "", 0, "", d, NoIx, NoLoss) : c \in {<<Zero>>, <<One>>, <<Zero, One>>, <<>>}, d \in {<<>>, <<D1>>}}
    \cup {PA("TimePoint", f, <<R(n)>>, z, 0, tz, <<>>, NoIx, NoLoss) : f \in {"args", "t", "dt"}, n \in {0, 1}, z \in {"Europe/Rome", ""}, tz \in {"", "Asia/Tokyo"}}
    \cup {PA(cls, "item", <<>>, "", j, tz, IF IsData(cls) THEN <<D1>> ELSE <<>>, NoIx, NoLoss) : cls \in {"TimePoint", "DataTimePoint"}, j \in Idx, tz \in {"", "Asia/Tokyo"}}
    \cup {PA(cls, "args", <<Zero>>, "", 0, "", d, ix, l) : cls \in {"DataPoint", "DataTimePoint"}, d \in {<<>>, <<D1>>, <<D2>>},
            ix \in {NoIx, [k |-> "list", v |-> <<>>], [k |-> "dict", v |-> <<[n |-> "q", x |-> <<One>>], [n |-> "data_loss", x |-> <<One>>]>>]}, l \in {NoLoss, [k |-> "set", x |-> <<Zero>>]}}
SlotOps ==
    {SA(cls, "ends", i, j, <<>>, "", "", u, IF IsData(cls) THEN <<D1>> ELSE <<>>) : cls \in {"Slot", "TimeSlot", "DataSlot"}, i \in (Idx \cup {0, -1}), j \in (Idx \cup {0, -1}),
            u \in {<<>>, <<U("unit", 1)>>, <<U("time", 1)>>, <<U("number", 1)>>}}
    \cup {SA("DataTimeSlot", f, 0, 0, <<Zero>>, z, tz, <<U("time", 1)>>, <<D2>>) : f \in {"t", "dt"}, z \in {"Europe/Rome", ""}, tz \in {"", "Asia/Tokyo"}}
Moves == {OtherOp("move", i, u, s, "", "", <<>>) : i \in Idx, u \in {U("unit", 1), U("time", 1)}, s \in {1, -1}}
Zones == {OtherOp("zone", i, <<>>, 0, z, "", <<>>) : i \in Idx, z \in {"Europe/Rome", "UTC"}}
Index == {OtherOp("index", i, <<>>, 0, "", n, x) : i \in Idx, n \in {"q", "data_loss"}, x \in {<<>>, <<One>>}}
\* (generic slots from a time unit, and slots from points with data, are left out)
Sensible(o) == o.op = "slot" => /\ \A j \in {o.a.src, o.a.end} : j > 0 => ~IsData(pool[j].cls)
                                /\ (~IsTime(o.a.cls) /\ o.a.unit # <<>>) => o.a.unit[1].k # "time"
                                /\ (o.a.src > 0 /\ o.a.end > 0 /\ Is(pool[o.a.src], "point") /\ Is(pool[o.a.end], "point"))
                                      => (Len(pool[o.a.src].c) # Len(pool[o.a.end].c) \/ \A d \in 1..Len(pool[o.a.src].c) : RLe(pool[o.a.src].c[d], pool[o.a.end].c[d]))
\* (only the items of the base classes are moved or changed on their own)
Ops == {o \in PointOps \cup (IF pool = <<>> THEN {} ELSE SlotOps \cup Moves \cup Zones \cup Index) : Sensible(o)}
\* from nothing, or from a pool of points to make slots of
Tp(n, tz) == PA("TimePoint", "t", <<R(n)>>, "", 0, tz, <<>>, NoIx, NoLoss)
Base == << PA("Point", "args", <<Zero>>, "", 0, "", <<>>, NoIx, NoLoss), PA("Point", "args", <<R(2)>>, "", 0, "", <<>>, NoIx, NoLoss),
           PA("Point", "args", <<Zero, R(3)>>, "", 0, "", <<>>, NoIx, NoLoss), PA("Point", "args", <<One, R(7)>>, "", 0, "", <<>>, NoIx, NoLoss),
           Tp(0, ""), Tp(2, ""), Tp(0, "Asia/Tokyo"), Tp(2, "Asia/Tokyo") >>
RECURSIVE Run(_, _)
Run(p, h) == IF h = <<>> THEN p ELSE Run(Apply(p, Head(h)).pool, Tail(h))
Init == hist \in {<<>>, Base} /\ pool = Run(<<>>, hist)
Full(h) == Len(h) = Depth \/ Len(h) = Len(Base) + Depth - 1
Next == /\ ~Full(hist)
        /\ \E o \in Ops : LET r == Apply(pool, o) IN pool' = r.pool /\ hist' = Append(hist, o)
\* ---- laws ---------------------------------------------------------------------------------------------------
Equivalence == \A a, b \in Idx : /\ Eq(pool[a], pool[a])
                                 /\ Eq(pool[a], pool[b]) = Eq(pool[b], pool[a])
                                 /\ \A d \in Idx : (Eq(pool[a], pool[b]) /\ Eq(pool[b], pool[d]) /\ IsData(pool[a].cls) = IsData(pool[b].cls)) => Eq(pool[a], pool[d])
Order == \A a, b \in Idx : Comparable(pool[a], pool[b]) =>
            /\ ~(Gt(pool[a], pool[b]) /\ Gt(pool[b], pool[a]))
            /\ (Gt(pool[a], pool[b]) \/ Gt(pool[b], pool[a])) = (pool[a].c # pool[b].c)
SlotLaws == \A j \in Idx : Is(pool[j], "slot") =>
            /\ Len(pool[j].c) = Len(pool[j].e) /\ pool[j].c # pool[j].e
            /\ (pool[j].u = <<>> /\ Len(pool[j].c) = 1) => UnitOf(pool[j]).v[1] = Length(pool[j])
Zoned == \A j \in Idx : (pool[j].tz # "") = IsTime(pool[j].cls)
MoveBack == \A j \in Idx : \A u \in {U("unit", 1), U("time", 1)} : MoveOk(pool[j], u) =>
            Eq(Moved(Moved(pool[j], u, 1), u, -1), [pool[j] EXCEPT !.data = <<>>]) /\ Moved(pool[j], u, 1).tz = pool[j].tz
Copies == \A j \in Idx : (Is(pool[j], "point") /\ IsTime(pool[j].cls)) => Eq(NewPoint([cls |-> "TimePoint", form |-> "item", src |-> j, tz |-> "", c |-> <<>>, z |-> "", data |-> <<>>, ix |-> NoIx, loss |-> NoLoss], pool), pool[j])
\* units are their values: taking one away again, or dividing by it, gives what there was
Vals == {R(n) : n \in -2..2} \cup {<<1, 2>>, <<-3, 2>>}
Arithmetic == \A a, b \in Vals : LET x == [k |-> "unit", v |-> <<a>>] y == [k |-> "number", v |-> <<b>>] w(v) == [k |-> "unit", v |-> <<v>>] IN
    /\ Arith("sub", w(Arith("add", x, y)), y) = a /\ Arith("add", x, y) = Arith("add", y, x) /\ Arith("sub", x, y) = RNeg(Arith("sub", y, x))
    /\ ArithOk("div", x, y) => Arith("mul", w(Arith("div", x, y)), y) = a
    /\ (Arith("eq", x, y) = One) = (Arith("sub", x, y) = Zero)
ASSUME Arithmetic
Laws == Equivalence /\ Order /\ SlotLaws /\ Zoned /\ MoveBack /\ Copies
Export == Full(hist) => PrintT("@@BEH" \o ToJson(hist))
=============================================================================
