------------------------------ MODULE ValTrace ------------------------------
(***************************************************************************)
(* Recorded histories of values, against ValHeap.  Objects are known by     *)
(* identity; after every operation all objects that can be reached are as   *)
(* the history so far determines.                                           *)
(***************************************************************************)
EXTENDS TraceLib, ValPool
VARIABLES ty, heap
vars == <<l, bad, ty, heap>>
Canary(e) == HasF(e, "canary")
J(v) == [k |-> v.k, t |-> v.t, n |-> v.n, s |-> v.s]
Js(s) == [i \in 1..Len(s) |-> J(s[i])]
Kw(s) == [i \in 1..Len(s) |-> [n |-> s[i].n, v |-> J(s[i].v)]]
\* all objects found are as they should be
PostOK(e, h) == \A i \in 1..Len(e.post) : LET p == e.post[i] IN p.s \in DOMAIN h /\ h[p.s] = Obj(p.t, p.tag, Js(p.o))
Post(e, h) == Need("val.state", PostOK(e, h), [k |-> "objects", o |-> {[s |-> e.post[i].s, o |-> h[e.post[i].s]] : i \in {q \in 1..Len(e.post) : e.post[q].s \in DOMAIN h}}])
Type ==
    /\ More /\ E.op = "type" /\ ty' = (E.s :> Canon(E.t)) @@ ty /\ UNCHANGED <<bad, heap>> /\ Advance
PoolEv ==     \* the harness builds the types of the pool
    /\ More /\ E.op = "pool"
    /\ LET p == Pool[E.n]
           x == IF p.id = 0 THEN p ELSE [p EXCEPT !.id = AnyId]
           y == IF Modified(p) THEN [ty[E.s] EXCEPT !.mods = p.mods] ELSE ty[E.s]
       IN bad' = bad \o Need("pool", Match(x, y) /\ (Modified(p) => Len(ty[E.s].mods) = Len(p.mods)), p)
    /\ UNCHANGED <<ty, heap>> /\ Advance
Reset == /\ More /\ E.op = "reset" /\ heap' = <<>> /\ UNCHANGED <<bad, ty>> /\ Advance
\* a new object with contents m.o, or an exception
New(e, m) ==
    /\ LET ok == IF m.c = "exc" THEN e.r.k = "exc" /\ e.r.c \in m.e
                 ELSE e.r.k = "val" /\ e.r.v.k = "ref" /\ e.r.v.t = m.o.t /\ e.r.v.s \notin DOMAIN heap
           h == IF ok /\ m.c = "obj" THEN (e.r.v.s :> m.o) @@ heap ELSE heap
       IN  /\ bad' = bad \o Need("val." \o e.op, ok, m) \o Post(e, h)
           /\ heap' = IF Canary(e) THEN heap ELSE h
    /\ UNCHANGED ty /\ Advance
MakeEv == More /\ E.op = "make" /\ New(E, Make(ty, E.t, Js(E.args), Kw(E.kw)))
\* from_values of a dictionary; of the object's own one if src is given
FromVals ==
    /\ More /\ E.op = "fromvals"
    /\ LET m == FromValues(ty, E.t, Kw(E.d))
       IN  IF HasF(E, "src") THEN New(E, Made(heap[E.src.s])) ELSE New(E, m)
\* a copy; a deep one only of objects that refer to no others
CopyEv == More /\ E.op = "copy" /\ New(E, Made(heap[E.x.s]))
Infer ==
    /\ More /\ E.op = "infer"
    /\ LET vs == Js(E.args)
           t == Tup([i \in 1..Len(vs) |-> ty[vs[i].t]])
           s == CHOOSE q \in DOMAIN ty \cup {0} : q = 0 \/ ty[q] = t
           known == \E q \in DOMAIN ty : ty[q] = t
       IN  IF known THEN New(E, Made(Obj((CHOOSE q \in DOMAIN ty : ty[q] = t), "", vs)))
           ELSE bad' = bad \o Need("val.infer", FALSE, t) /\ UNCHANGED <<ty, heap>> /\ Advance
Assign ==
    /\ More /\ E.op \in {"setitem", "setname", "setalt"}
    /\ LET e == E
           b == heap[e.x.s]
           m == CASE e.op = "setitem" -> SetItem(ty, b, e.i, J(e.v)) [] e.op = "setname" -> SetName(ty, b, e.n, J(e.v)) [] e.op = "setalt" -> SetAlt(ty, b, e.T, J(e.v))
           ok == IF m.c = "exc" THEN e.r.k = "exc" /\ e.r.c \in m.e ELSE e.r.k = "none"
           h == IF m.c = "obj" THEN [heap EXCEPT ![e.x.s] = m.o] ELSE heap
       IN  /\ bad' = bad \o Need("val." \o e.op, ok, m) \o Post(e, h)
           /\ heap' = IF Canary(e) THEN heap ELSE h
    /\ UNCHANGED ty /\ Advance
\* everything that can be read from an object
Slice(s, a, b) == LET n == Len(s)
                      lim(i) == IF i < 0 THEN (IF i + n < 0 THEN 0 ELSE i + n) ELSE IF i > n THEN n ELSE i
                  IN  SubSeq(s, lim(a) + 1, lim(b))
View ==
    /\ More /\ E.op = "view"
    /\ LET e == E
           b == heap[e.x.s]
           r == Rt(ty, b.t)
           q == e.r
           n == Len(b.o)
           none == J(q.none)
       IN bad' = bad \o (IF r.k \in Ordered
            THEN Need("view.items", Js(q.items) = b.o /\ Js(q.neg) = b.o /\ q.oor = <<"IndexError", "IndexError">>, b)
                 \o Need("view.slices", \A i \in 1..Len(q.slices) : Js(q.slices[i].v) = Slice(b.o, q.slices[i].a, q.slices[i].b), b)
                 \o Need("view.names", IF r.k = "tuple" THEN TRUE ELSE Len(q.names) = n /\ \A i \in 1..n : q.names[i].n = r.o[i].n /\ J(q.names[i].v) = b.o[i], b)
                 \o Need("view.order", [i \in 1..Len(q.dict) |-> q.dict[i].n] = [i \in 1..n |-> IF r.k = "tuple" THEN ToString(i - 1) ELSE r.o[i].n], r)
            ELSE LET key(a) == IF r.k = "tu" THEN a.n ELSE KeyTag(a.t)
                 IN  Need("view.alternatives", {key(q.alts[i]) : i \in 1..Len(q.alts)} = (IF r.k = "tu" THEN FieldNames(r) ELSE {KeyTag(CHOOSE s \in DOMAIN ty : ty[s] = T) : T \in FieldTypes(r)}), r)
                     \o Need("view.match", \A i \in 1..Len(q.alts) : LET a == q.alts[i] IN
                               IF key(a) = b.tag THEN a.m = 1 /\ a.r.k = "val" /\ J(a.r.v) = b.o[1] ELSE a.m = 0 /\ a.r.k = "exc" /\ a.r.c = "TypeError", b)
                     \o Need("view.other", \A i \in 1..Len(q.others) : q.others[i].m = (IF ty[q.others[i].t] \in FieldTypes(r)
                               THEN (IF r.k = "tu" THEN (IF TypeNamed(r, b.tag) = ty[q.others[i].t] THEN "match" ELSE "no match") ELSE IF KeyTag(q.others[i].t) = b.tag THEN "match" ELSE "no match")
                               ELSE "TypeError"), b))
            \o Need("view.value", Js(q.raw) = b.o, b)
            \o Need("view.value_dict", {[n |-> q.dict[i].n, v |-> J(q.dict[i].v)] : i \in 1..Len(q.dict)} = Dict(ty, b, none) /\ Len(q.dict) = Cardinality(Dict(ty, b, none))
                                           /\ q.frozen = "TypeError", Dict(ty, b, none))
            \o Post(e, heap)
    /\ UNCHANGED <<ty, heap>> /\ Advance
Cmp ==
    /\ More /\ E.op = "cmp"
    /\ LET e == E
           v == J(e.x)
           w == J(e.y)
           x == Eq(ty, heap, v, w)
           y == IF x THEN 1 ELSE 0
       IN bad' = bad \o (IF ~Comparable(ty, heap, v, w) THEN <<>>
                         ELSE Need("val.eq", e.r.eq = y /\ e.r.re = y, y) \o Need("val.ne", e.r.ne = 1 - y /\ e.r.rne = 1 - y, 1 - y)
                              \o Need("val.hash", x => e.r.h = 1, [k |-> "equal hashes"]))
                     \o Post(e, heap)
    /\ UNCHANGED <<ty, heap>> /\ Advance
Visit ==
    /\ More /\ E.op = "visit"
    /\ LET e == E
           w == Visits(ty, heap, J(e.x))
       IN bad' = bad \o Need("val.visit", e.r.k = "visit" /\ [i \in 1..Len(e.r.v) |-> [h |-> e.r.v[i].h, v |-> J(e.r.v[i].v)]] = w, w) \o Post(e, heap)
    /\ UNCHANGED <<ty, heap>> /\ Advance
Refused ==
    /\ More /\ E.op = "refused"
    /\ bad' = bad \o Need("val.refused", E.r.k = "exc" /\ E.r.c \in Range(E.want), E.want) \o Post(E, heap)
    /\ UNCHANGED <<ty, heap>> /\ Advance
Init == TraceInit /\ ty = <<>> /\ heap = <<>>
Done == TraceDone /\ UNCHANGED <<ty, heap>>
Next == Type \/ PoolEv \/ Reset \/ MakeEv \/ FromVals \/ CopyEv \/ Infer \/ Assign \/ View \/ Cmp \/ Visit \/ Refused \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
