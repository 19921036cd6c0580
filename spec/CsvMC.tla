-------------------------------- MODULE CsvMC --------------------------------
(* Every small file: header or not, rows in any order with missing, malformed and   *)
(* repeated ones, read in every way.  The files are exported with their options.      *)
EXTENDS Csv, Json, IOUtils
MaxRows == atoi(IOEnv.N)
VARIABLES rows, o, header
Cells == { << <<>>, <<R(4)>>, <<One>> >>, << <<>>, <<R(-2)>>, <<>> >>, << <<>>, <<R(3)>> >>, << <<>>, <<>>, <<Zero>> >> }
Times == {<<>>, <<1>>, <<2>>, <<3>>, <<5>>}      \* 3 is not on the boundaries from 1
Nexts == <<2, 4, 0, 5, 0>>
Opt(sel, hidden, limit, skip, sort, slots) == [tcols |-> {1}, sel |-> sel, names |-> <<"b">>, positions |-> <<3>>, form |-> "auto", hidden |-> hidden, limit |-> limit, skip |-> skip, sort |-> sort, slots |-> slots, next |-> Nexts]
Nothing == [x \in {} |-> ""]
Opts == {Opt("all", h, l, sk, so, sl) : h \in {Nothing, [x \in {"c"} |-> "i"]}, l \in {<<>>, <<2>>}, sk \in BOOLEAN, so \in BOOLEAN, sl \in BOOLEAN}
        \cup {Opt(sel, Nothing, <<>>, sk, FALSE, sl) : sel \in {"names", "positions"}, sk \in BOOLEAN, sl \in BOOLEAN}
Init == rows = <<>> /\ o \in Opts /\ header \in {<<>>, <<"t", "b", "c">>, <<"t", "", "b">>}
Next == Len(rows) < MaxRows /\ \E t \in Times : \E c \in Cells : rows' = Append(rows, [ts |-> t, cells |-> c]) /\ UNCHANGED <<o, header>>
f == [header |-> header, rows |-> rows]
\* without a header the first row has all its cells
Sane == rows # <<>> /\ (header = <<>> => rows[1].ts # <<>> /\ \A p \in 2..Len(rows[1].cells) : rows[1].cells[p] # <<>>)
Res == Result(f, o)
Laws == Sane /\ Accepted(f, o) =>
    /\ Res # <<>> /\ \A j \in 1..(Len(Res) - 1) : Res[j].t < Res[j + 1].t
    /\ \A j \in 1..Len(Res) : \/ o.slots /\ Res[j].ix = [data_loss |-> One]
                              \/ \E r \in 1..Len(rows) : Good(f, o, rows[r]) /\ Res[j] = Item(f, o, rows[r])
    /\ ~o.slots => Len(Res) <= Len(rows) /\ (o.limit # <<>> => Len(Res) <= o.limit[1])
    /\ o.slots => \A j \in 1..(Len(Res) - 1) : Res[j + 1].t = o.next[Res[j].t]
    /\ ~o.skip => \A j \in Reached(f, o) : \E k \in 1..Len(Res) : Res[k] = Item(f, o, rows[j])
    /\ (o.sort /\ o.limit = <<>> /\ ~o.slots) => {r.t : r \in {Res[j] : j \in 1..Len(Res)}} = {rows[j].ts[1] : j \in Goods(f, o)}
    /\ \A j \in 1..(Len(Res) - 1) : DOMAIN Res[j].x = DOMAIN Res[j + 1].x
Export == Len(rows) = MaxRows /\ Sane => PrintT("@@BEH" \o ToJson([header |-> header, rows |-> [j \in 1..Len(rows) |-> [ts |-> rows[j].ts, cells |-> [p \in 1..Len(rows[j].cells) |-> IF rows[j].cells[p] = <<>> THEN <<>> ELSE <<rows[j].cells[p][1][1]>>]]],
             sel |-> o.sel, names |-> o.names, positions |-> o.positions, hide |-> DOMAIN o.hidden # {}, limit |-> o.limit, skip |-> o.skip, sort |-> o.sort, slots |-> o.slots]))
=============================================================================
