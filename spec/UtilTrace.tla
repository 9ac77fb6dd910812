----------------------------- MODULE UtilTrace -----------------------------
(* Recorded histories of mappings and typed properties, against Util. *)
EXTENDS TraceLib, Util
VARIABLES regs, props, classes
vars == <<l, bad, regs, props, classes>>
Canary(e) == HasF(e, "canary")
NoRegs == UNCHANGED regs
NoProps == UNCHANGED <<props, classes>>
Cont(i) == IF regs[i].k = "proxy" THEN regs[regs[i].of].o ELSE regs[i].o
ContIn(rs, i) == IF rs[i].k = "proxy" THEN rs[rs[i].of].o ELSE rs[i].o
\* frozen dictionaries: contents, order and hash as when they were made
Post(e, rs) == Need("map.state", \A i \in 1..Len(e.post) : LET p == e.post[i] IN p.o = ContIn(rs, p.i) /\ (rs[p.i].k \in Frozen => p.h = rs[p.i].h),
                    [k |-> "contents", rs |-> [i \in 1..Len(e.post) |-> ContIn(rs, e.post[i].i)]])
Reset == /\ More /\ E.op = "reset" /\ regs' = <<>> /\ props' = <<>> /\ classes' = <<>> /\ UNCHANGED bad /\ Advance
Hash(e) == IF HasF(e, "h") THEN e.h ELSE ""
Made ==
    /\ More /\ E.op \in {"make", "from", "proxy"}
    /\ LET e == E
           o == CASE e.op = "make" -> PutAll(PutAll(<<>>, e.xs), e.kw) [] e.op = "from" -> Cont(e.x) [] e.op = "proxy" -> <<>>
           rs == (e.dst :> [k |-> IF e.op = "proxy" THEN "proxy" ELSE e.k, o |-> o, of |-> IF e.op = "proxy" THEN e.x ELSE 0, h |-> Hash(e)]) @@ regs
       IN /\ bad' = bad \o Need("map.make", e.r.k = "made", [k |-> "made"]) \o Post(e, rs)
          /\ regs' = IF Canary(e) THEN regs ELSE rs
    /\ NoProps /\ Advance
Mut ==
    /\ More /\ E.op = "mut"
    /\ LET e == E
           o == regs[e.x].o
           rs == [regs EXCEPT ![e.x].o = CASE e.how = "del" -> Del(o, e.n) [] e.how = "put" -> Put(o, e.n, e.v) [] e.how = "move" -> Append(Del(o, e.n), [n |-> e.n, v |-> At(o, e.n)])]
       IN /\ bad' = bad \o Need("map.mut", e.r.k = "none", [k |-> "none"]) \o Post(e, rs) /\ regs' = IF Canary(e) THEN regs ELSE rs
    /\ NoProps /\ Advance
Cmp ==
    /\ More /\ E.op = "cmp"
    /\ LET e == E
           x == Same(regs[e.x].k, Cont(e.x), regs[e.y].k, Cont(e.y))
           y == IF x THEN 1 ELSE 0
       IN bad' = bad \o Need("map.eq", e.r.eq = y /\ e.r.re = y, y) \o Need("map.ne", e.r.ne = 1 - y /\ e.r.rne = 1 - y, 1 - y)
                 \o (IF x /\ regs[e.x].k \in Frozen /\ regs[e.y].k \in Frozen THEN Need("map.hash", e.r.h = 1, [k |-> "equal hashes"]) ELSE <<>>)
                 \o Post(e, regs)
    /\ NoRegs /\ NoProps /\ Advance
\* everything a mapping offers
Look ==
    /\ More /\ E.op = "look"
    /\ LET e == E
           o == Cont(e.x)
           q == e.r
       IN bad' = bad \o Need("map.views", q.keys = [i \in 1..Len(o) |-> o[i].n] /\ q.values = [i \in 1..Len(o) |-> o[i].v] /\ q.items = o /\ q.len = Len(o)
                                /\ (q.bool = 1) = (o # <<>>) /\ q.mapping = 1, o)
                 \o Need("map.lookup", \A i \in 1..Len(q.at) : LET a == q.at[i] IN
                           IF a.n \in Keys(o) THEN a["in"] = 1 /\ a.r.k = "val" /\ a.r.v = At(o, a.n) /\ a.get = At(o, a.n) ELSE a["in"] = 0 /\ a.r.k = "exc" /\ a.r.c = "KeyError" /\ a.get = a.def, o)
                 \o Post(e, regs)
    /\ NoRegs /\ NoProps /\ Advance
Refused ==
    /\ More /\ E.op = "refused"
    /\ bad' = bad \o Need("map.refused", E.r.k = "exc" /\ E.r.c \in Range(E.want), E.want) \o Post(E, regs)
    /\ NoRegs /\ NoProps /\ Advance
PropEv ==
    /\ More /\ E.op = "prop"
    /\ bad' = bad \o Need("prop.make", E.r.k = "made", [k |-> "made"])
    /\ props' = IF Canary(E) THEN props ELSE (E.dst :> Prop(E.T, E.g, E.s, E.d)) @@ props
    /\ UNCHANGED classes /\ NoRegs /\ Advance
With ==     \* a new property, the old one as it was
    /\ More /\ E.op = "with"
    /\ bad' = bad \o Need("prop.with", E.r.k = "made", [k |-> "made"])
    /\ props' = IF Canary(E) THEN props ELSE (E.dst :> [props[E.x] EXCEPT ![E.acc] = E.id]) @@ props
    /\ UNCHANGED classes /\ NoRegs /\ Advance
\* not declared in a class yet: it stands for itself
Outside ==
    /\ More /\ E.op = "outside"
    /\ bad' = bad \o Need("prop.outside", E.r.k = "itself", [k |-> "itself"])
    /\ NoRegs /\ NoProps /\ Advance
Class ==
    /\ More /\ E.op = "class"
    /\ LET b == IF E.base = 0 THEN <<>> ELSE classes[E.base]
           own == FoldLeft(LAMBDA a, x : (x.n :> props[x.p]) @@ a, b, E.names)
       IN classes' = IF Canary(E) THEN classes ELSE (E.c :> own) @@ classes
    /\ UNCHANGED <<bad, props>> /\ NoRegs /\ Advance
Use ==
    /\ More /\ E.op = "use"
    /\ LET e == E
           p == classes[e.c][e.n]
           x == CASE e.how = "cls" -> [k |-> "type", v |-> p.T]
                  [] e.how = "get" -> (IF p.g = 0 THEN [k |-> "exc", v |-> "AttributeError"] ELSE [k |-> "got", v |-> ToString(p.g)])
                  [] e.how = "set" -> (IF p.s = 0 THEN [k |-> "exc", v |-> "AttributeError"] ELSE IF SubT(e.v, p.T) THEN [k |-> "set", v |-> ToString(p.s)] ELSE [k |-> "exc", v |-> "TypeError"])
                  [] e.how = "del" -> (IF p.d = 0 THEN [k |-> "exc", v |-> "AttributeError"] ELSE [k |-> "deleted", v |-> ToString(p.d)])
       IN bad' = bad \o Need("prop." \o e.how, e.r = x, x)
    /\ NoRegs /\ NoProps /\ Advance
Init == TraceInit /\ regs = <<>> /\ props = <<>> /\ classes = <<>>
Done == TraceDone /\ NoRegs /\ NoProps
Next == Reset \/ Made \/ Mut \/ Cmp \/ Look \/ Refused \/ Outside \/ PropEv \/ With \/ Class \/ Use \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
