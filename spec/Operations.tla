------------------------------ MODULE Operations ------------------------------
(* Operations on a series of points or slots.                                   *)
(* A series is [kind, ty, items]: kind "point" or "slot", ty "dict" or "list"     *)
(* (the type of the data), and items a sequence of [t, e, x, ix, z, u]: start and   *)
(* end (equal for points) in ticks, x the value of each label, ix the optional      *)
(* value of each index, z the time zone and u the unit of slots.  Rates are per tick. *)
EXTENDS Rat, TLC
Labels(s) == DOMAIN s.items[1].x
N(s) == Len(s.items)
X(s, i, l) == s.items[i].x[l]
Steps(s) == {s.items[i + 1].t - s.items[i].t : i \in 1..(N(s) - 1)}
\* the length of the unit of slots (of the first one, if calendar), or the constant distance of points; zero if there is none
Fixed(s) == IF s.kind = "slot" THEN s.items[1].e - s.items[1].t
            ELSE IF Cardinality(Steps(s)) = 1 THEN CHOOSE d \in Steps(s) : TRUE ELSE 0
Variable(s) == s.kind = "point" /\ Cardinality(Steps(s)) > 1
Undefined(s) == s.kind = "point" /\ N(s) = 1
D(s, i) == IF Fixed(s) # 0 THEN Fixed(s) ELSE s.items[i + 1].t - s.items[i].t      \* between item i and the next
Name(s, l, p) == IF s.ty = "dict" THEN l \o "_" \o p ELSE l
Renamed(s, x, p) == [m \in {Name(s, l, p) : l \in DOMAIN x} |-> x[CHOOSE l \in DOMAIN x : Name(s, l, p) = m]]
\* the same items from item k on, with other data F(i, l)
Mapped(s, k, F(_, _), p) == [s EXCEPT !.items = [j \in 1..(N(s) - k + 1) |->
      LET i == j + k - 1 y == [l \in Labels(s) |-> F(i, l)] IN
      [s.items[i] EXCEPT !.x = IF p = "" THEN y ELSE Renamed(s, y, p)]]]
\* in place: new labels are added next to the others; data without labels are replaced
InPlace(s, o) == [s EXCEPT !.items = [i \in 1..N(s) |-> [s.items[i] EXCEPT !.x = o.items[i].x @@ s.items[i].x]]]
Refused == [kind |-> "refused", ty |-> "", items |-> <<>>]

\* ---- differences and derivatives --------------------------------------------------------------
Delta(s, i, l) == RSub(X(s, i + 1, l), X(s, i, l))
Rate(s, i, l) == RMul(Delta(s, i, l), Norm(1, D(s, i)))
Half(a) == RMul(a, Norm(1, 2))
Diff(s) == Mapped(s, 2, LAMBDA i, l : Delta(s, i - 1, l), "diff")
Centred(s, F(_, _), i, l) == IF i = 1 THEN F(1, l) ELSE IF i = N(s) THEN F(i - 1, l) ELSE Half(RAdd(F(i - 1, l), F(i, l)))
Derivative(s) == Mapped(s, 1, LAMBDA i, l : Centred(s, LAMBDA j, m : Rate(s, j, m), i, l), "derivative")
CentredDiff(s) == Mapped(s, 1, LAMBDA i, l : Centred(s, LAMBDA j, m : Delta(s, j, m), i, l), "diff")
RateDiff(s) == Mapped(s, 2, LAMBDA i, l : Rate(s, i - 1, l), "derivative")
\* ---- sums and integrals ------------------------------------------------------------------------
RECURSIVE Cumulated(_, _, _)
Cumulated(s, i, l) == IF i = 0 THEN Zero ELSE RAdd(Cumulated(s, i - 1, l), X(s, i, l))
\* the rate over the step before item i, such that a derivative is undone
RECURSIVE Over(_, _, _)
Over(s, i, l) == IF i = 1 THEN X(s, 1, l) ELSE RSub(RMul(R(2), X(s, i - 1, l)), Over(s, i - 1, l))
RECURSIVE Integrated(_, _, _)
Integrated(s, i, l) == IF i = 1 THEN Zero ELSE RAdd(Integrated(s, i - 1, l), RMul(Over(s, i, l), R(D(s, i - 1))))
\* c, offset: a number for every label ([all |-> <<v>>]) or one per label
Value(a, l, default) == IF a.all # <<>> THEN a.all[1] ELSE IF l \in DOMAIN a.per THEN a.per[l] ELSE default
Complete(s, a) == a.all # <<>> \/ Labels(s) \subseteq DOMAIN a.per
CSum(s, c) == Mapped(s, 1, LAMBDA i, l : RAdd(Value(c, l, Zero), Cumulated(s, i, l)), "csum")
Integral(s, c) == Mapped(s, 1, LAMBDA i, l : RAdd(Value(c, l, Zero), Integrated(s, i, l)), "integral")
\* with an offset, an item carrying it comes first
NoIndexes == [m \in {"~"} |-> <<>>]
Prepended(s, o, a, p) ==
    LET f == s.items[1] x == [l \in Labels(s) |-> Value(a, l, Zero)]
        t == f.t - Fixed(s)
    IN [o EXCEPT !.items = <<[f EXCEPT !.t = t, !.e = IF s.kind = "slot" THEN f.t ELSE t, !.x = Renamed(s, x, p),
                                       !.ix = ("data_loss" :> <<Zero>>) @@ NoIndexes]>> \o o.items]
\* ---- moving averages -------------------------------------------------------------------------------
Window(s, i, w, l) == [j \in 1..w |-> X(s, i - w + j, l)]
NoIx(s) == [s EXCEPT !.items = [i \in 1..N(s) |-> [s.items[i] EXCEPT !.ix = NoIndexes]]]
MAvg(s, w) == LET p == "mavg_" \o ToString(w) IN
    IF w > N(s) THEN [s EXCEPT !.items = <<>>]
    ELSE NoIx(Mapped(s, w, LAMBDA i, l : RMul(RSumSeq(Window(s, i, w, l)), Norm(1, w)), p))
\* ---- normalisation, rescaling and offsetting ----------------------------------------------------------
Column(s, l) == [i \in 1..N(s) |-> X(s, i, l)]
Lowest(s, src, l) == IF src = <<>> THEN RMinSeq(Column(s, l)) ELSE src[1][l][1]
Highest(s, src, l) == IF src = <<>> THEN RMaxSeq(Column(s, l)) ELSE src[1][l][2]
Normalisable(s, src) == (src # <<>> => Labels(s) \subseteq DOMAIN src[1]) /\ \A l \in Labels(s) : Lowest(s, src, l) # Highest(s, src, l)
Normalize(s, rg, src) == Mapped(s, 1, LAMBDA i, l : LET lo == Lowest(s, src, l) hi == Highest(s, src, l) IN
    RAdd(rg[1], RMul(RDiv(RSub(X(s, i, l), lo), RSub(hi, lo)), RSub(rg[2], rg[1]))), "")
Rescale(s, a) == Mapped(s, 1, LAMBDA i, l : RMul(X(s, i, l), Value(a, l, One)), "")
Offset(s, a) == Mapped(s, 1, LAMBDA i, l : RAdd(X(s, i, l), Value(a, l, Zero)), "")
\* ---- selections ------------------------------------------------------------------------------------------
Filter(s, ls) == [s EXCEPT !.items = [i \in 1..N(s) |-> [s.items[i] EXCEPT !.x = [l \in ls |-> X(s, i, l)]]]]
Select(s, l, v) == [s EXCEPT !.items = SelectSeq(s.items, LAMBDA y : y.x[l] = v)]
\* ---- scalars -----------------------------------------------------------------------------------------------
Scalar(op, s, l) == LET c == Column(s, l) IN
    CASE op = "min" -> RMinSeq(c) [] op = "max" -> RMaxSeq(c) [] op = "sum" -> RSumSeq(c) [] op = "avg" -> RMul(RSumSeq(c), Norm(1, N(s)))
\* ---- merging several series -----------------------------------------------------------------------------
Times(s) == {s.items[i].t : i \in 1..N(s)}
At(s, t) == s.items[CHOOSE i \in 1..N(s) : s.items[i].t = t]
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
From(q) == MaxOf({MinOf(Times(q[k])) : k \in 1..Len(q)})
Till(q) == MinOf({MaxOf(Times(q[k])) : k \in 1..Len(q)})
Period(q, s) == {t \in Times(s) : From(q) <= t /\ t <= Till(q)}
Mergeable(q) == /\ \A k \in 1..Len(q) : ~Variable(q[k])
                /\ \A k, m \in 1..Len(q) : /\ q[k].kind = q[m].kind
                                           /\ IF q[k].kind = "slot" THEN q[k].items[1].u = q[m].items[1].u
                                              ELSE Undefined(q[k]) \/ Undefined(q[m]) \/ Fixed(q[k]) = Fixed(q[m])
                                           /\ Period(q, q[k]) = Period(q, q[m])
\* series of which nothing overlaps may be refused or give nothing; so may one of a single point, having no resolution
Disjoint(q) == From(q) > Till(q)
RECURSIVE SortedTimes(_)
SortedTimes(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortedTimes(S \ {m})
MeanSeq(v) == RMul(RSumSeq(v), Norm(1, Len(v)))
Merged(q, t) ==
    LET its == [k \in 1..Len(q) |-> At(q[k], t)]
        ls == UNION {DOMAIN its[k].x : k \in 1..Len(q)}
        ms == UNION {{m \in DOMAIN its[k].ix : its[k].ix[m] # <<>>} : k \in 1..Len(q)}
        vals(l) == SelectSeq(its, LAMBDA y : l \in DOMAIN y.x)
        ixs(m) == SelectSeq(its, LAMBDA y : m \in DOMAIN y.ix /\ y.ix[m] # <<>>)
    IN [its[1] EXCEPT !.z = q[1].items[1].z, !.x = [l \in ls |-> LET v == vals(l) IN MeanSeq([j \in 1..Len(v) |-> v[j].x[l]])],
                      !.ix = [m \in ms |-> LET v == ixs(m) IN <<MeanSeq([j \in 1..Len(v) |-> v[j].ix[m][1]])>>] @@ NoIndexes]
Merge(q) == LET ts == SortedTimes(Period(q, q[1])) IN
    [q[1] EXCEPT !.ty = IF \A k \in 1..Len(q) : q[k].ty = "list" THEN "list" ELSE "dict", !.items = [j \in 1..Len(ts) |-> Merged(q, ts[j])]]

\* ---- what an operation gives ------------------------------------------------------------------------------
\* a: [op, inplace, normalize, diffs, c, offset, w, range, src, labels, label, v, others]
NoOffset(a) == a.offset.all = <<>> /\ DOMAIN a.offset.per = {"~"}
Cumulative(s, a, p, F(_, _)) ==
    IF NoOffset(a) THEN (IF Complete(s, a.c) \/ DOMAIN a.c.per = {"~"} THEN F(s, a.c) ELSE Refused)
    ELSE IF a.inplace \/ ~Complete(s, a.offset) \/ Variable(s) \/ Undefined(s) THEN Refused
    ELSE Prepended(s, F(s, a.offset), a.offset, p)
Operate(s, a) ==
    IF N(s) = 0 THEN Refused ELSE
    CASE a.op = "diff" -> IF N(s) = 1 \/ Variable(s) \/ a.inplace THEN Refused ELSE Diff(s)
      [] a.op = "derivative" ->
            IF N(s) = 1 \/ (a.diffs /\ a.inplace) THEN Refused
            ELSE IF a.diffs THEN (IF a.normalize THEN RateDiff(s) ELSE Diff(s))
            ELSE IF a.normalize THEN Derivative(s) ELSE CentredDiff(s)
      [] a.op = "csum" -> IF Variable(s) THEN Refused ELSE Cumulative(s, a, "csum", CSum)
      [] a.op = "integral" -> IF a.normalize THEN (IF Undefined(s) THEN Refused ELSE Cumulative(s, a, "integral", Integral))
                              ELSE Cumulative(s, a, "csum", CSum)
      [] a.op = "mavg" -> IF a.w < 1 \/ a.inplace THEN Refused ELSE MAvg(s, a.w)
      [] a.op = "normalize" -> IF Normalisable(s, a.src) THEN Normalize(s, a.range, a.src) ELSE Refused
      [] a.op = "rescale" -> Rescale(s, a.v)
      [] a.op = "offset" -> Offset(s, a.v)
      [] a.op = "filter" -> IF s.ty = "list" \/ ~(a.labels \subseteq Labels(s)) THEN Refused ELSE Filter(s, a.labels)
      [] a.op = "select" -> IF a.label \in Labels(s) THEN Select(s, a.label, a.value) ELSE Refused
      [] a.op = "merge" -> LET q == <<s>> \o a.others IN
                           IF \E k \in 1..Len(q) : N(q[k]) = 0 THEN Refused ELSE IF Mergeable(q) THEN Merge(q) ELSE Refused
\* what the series itself is afterwards
Adds(a) == a.op \in {"diff", "derivative", "csum", "integral"}
Afterwards(s, a) == LET r == Operate(s, a) IN
    IF ~a.inplace \/ r.kind = "refused" THEN s ELSE IF Adds(a) THEN InPlace(s, r) ELSE r
=============================================================================
