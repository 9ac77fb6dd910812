------------------------------ MODULE ADTTrace ------------------------------
(***************************************************************************)
(* Histories of making types recorded from the real library, against the    *)
(* theory ADT.  The state holds the types in the registers with the         *)
(* identity of every type object met inside them: among live types, equal   *)
(* definitions are one object and different definitions are not.            *)
(***************************************************************************)
EXTENDS TraceLib, ADT
VARIABLES regs, seen, slots, cachedmods
vars == <<l, bad, regs, seen, slots, cachedmods>>

RECURSIVE NodesS(_)
NodesS(j) == {<<Canon(j), j.s>>} \cup UNION {NodesS(j.o[i].t) : i \in {q \in 1..Len(j.o) : j.k # "enum"}}
             \cup UNION {NodesS(j.u[i].t) : i \in {q \in 1..Len(j.u) : j.k # "enum"}}
             \cup UNION {NodesS(j.base[i]) : i \in 1..Len(j.base)}
NoT == Leaf("", -1)
RECURSIVE Ids(_)
Ids(t) == {t.id} \cup UNION {Ids(t.o[i].t) : i \in 1..Len(t.o)} \cup UNION {Ids(f.t) : f \in t.u} \cup UNION {Ids(t.base[i]) : i \in 1..Len(t.base)}
Live == UNION {regs[i].ns : i \in DOMAIN regs}
Labels(t) == UNION {Range(x.mods) : x \in Nodes(t)}
LiveLabels == Range(slots) \cup UNION {UNION {Range(p[1].mods) : p \in regs[i].ns} : i \in DOMAIN regs}
T(i) == regs[i].t
X(e) == [i \in 1..Len(e.x) |-> T(e.x[i])]
U(e) == IF e.un = 0 THEN Builtin[CASE e.kind = "tuple" -> "Tuple" [] e.kind = "sum" -> "Sum" [] e.kind = "anon" -> "AnonymousProduct" [] e.kind = "product" -> "Product"
                                   [] e.kind = "tu" -> "TaggedUnion" [] e.kind = "enum" -> "Enum"] ELSE T(e.un)
OfType(t) == [c |-> "type", t |-> t]
Raises(x) == [c |-> "exc", e |-> x]
Named(e) == [i \in 1..Len(e.names) |-> Fld(e.names[i], T(e.x[i]))]
\* what the operation yields
Expected(e) ==
    CASE e.op = "leaf" -> OfType(Leaf(e.n, e.sz))
      [] e.op = "index" -> OfType(Bind(U(e), IF e.kind = "anon" THEN Named(e) ELSE [i \in 1..Len(e.x) |-> Fld("", T(e.x[i]))], "", 0))
      [] e.op = "define" -> OfType(Bind(U(e), Named(e), e.name, IF e.cache = 0 THEN AnyId ELSE 0))
      [] e.op = "redo" -> OfType(Redo(T(e.x[1]), e.e, T(e.x[2]), U(e), AnyId))
      [] e.op = "enum" -> OfType(Bind(U(e), [i \in 1..Len(e.names) |-> Fld(e.names[i], Leaf(e.values[i], 0))], e.name, IF e.cache = 0 THEN AnyId ELSE 0))
      [] e.op = "unbound" -> OfType(Mk("U", e.name, 0, <<U(e)>>, <<>>, {}, AnyId))
      [] e.op = "derive" -> OfType(Mk("derived", e.name, 0, <<T(e.x[1])>>, <<>>, {}, AnyId))
      [] e.op \in {"mod", "wrap"} -> LET ms == IF e.op = "mod" THEN <<slots[e.m]>> ELSE [i \in 1..Len(e.ms) |-> slots[e.ms[i]]]
                                     IN  IF IsInjective(T(e.x[1]).mods \o ms) THEN OfType(Wrap(T(e.x[1]), ms)) ELSE Raises("TypeError")
      [] e.op = "unwrap" -> OfType(Unmod(T(e.x[1])))
      [] e.op = "unwrap1" -> IF Modified(T(e.x[1])) THEN OfType([T(e.x[1]) EXCEPT !.mods = Front(@)]) ELSE Raises("TypeError")
      [] e.op = "rebind" -> OfType(Rebind(T(e.x[1]), T(e.x[2]), T(e.x[3]), e.sub = 1, e.rec # 0))
      [] e.op = "rebind_bv" -> OfType(RebindBV(T(e.x[1]), e.f0, e.f1, e.keep = 1))
      [] e.op = "rebind_keep" -> OfType(RebindKeep(T(e.x[1]), T(e.x[2]), T(e.x[3])))
      [] e.op = "rebind_type" -> OfType(RebindType(T(e.x[1]), e.fam))
      [] e.op = "strip" -> OfType(Strip(T(e.x[1])))
      [] e.op = "push" -> IF CanPush(T(e.x[1]), <<>>) THEN OfType(Push(T(e.x[1]), <<>>)) ELSE Raises("TypeError")
Canary(e) == HasF(e, "canary")
\* nothing is required of this event; a corrupted copy of it says nothing either
Undef(e) == IF Canary(e) THEN Need("undefined", FALSE, [k |-> "undefined"]) ELSE <<>>
TypeOps == {"leaf", "index", "define", "redo", "enum", "unbound", "derive", "mod", "wrap", "unwrap", "unwrap1", "rebind", "rebind_bv", "rebind_keep", "rebind_type", "strip", "push"}
Defined(e) ==   \* whether what it yields is specified
    CASE e.op = "rebind" -> Plain(T(e.x[1])) [] e.op = "rebind_bv" -> (IF e.keep = 1 THEN PlainKeep(T(e.x[1])) ELSE Plain(T(e.x[1])))
      [] e.op = "rebind_keep" -> PlainKeep(T(e.x[1])) /\ ~Modified(T(e.x[2])) [] e.op = "rebind_type" -> PlainKeep(T(e.x[1])) /\ PlainLeaf(T(e.x[1]))
      [] e.op \in {"strip", "push"} -> PlainKeep(T(e.x[1])) [] OTHER -> TRUE
OneToOne(S) == Cardinality({p[1] : p \in S}) = Cardinality(S) /\ Cardinality({p[2] : p \in S}) = Cardinality(S)
Same == UNCHANGED <<slots, cachedmods>>
TypeOp ==
    /\ More /\ E.op \in TypeOps
    /\ LET e == E
           x == Expected(e)
           got == e.r.k = "type"
           t == IF got THEN Canon(e.r.t) ELSE NoT
           ns == IF got THEN NodesS(e.r.t) ELSE {}
           new == Ids(t) \ (IF x.c = "type" THEN Ids(x.t) ELSE {})
           ok == IF x.c = "exc" THEN e.r.k = "exc" /\ e.r.c = x.e ELSE got /\ Match(x.t, t)
       IN /\ bad' = bad \o (IF ~Defined(e) THEN Undef(e)
                            ELSE Need("type." \o e.op, ok, x)
                              \o (IF got /\ x.c = "type" THEN Need("type.new", (new \ {0}) \cap seen = {}, [k |-> "a new class", met |-> new \cap seen]) ELSE <<>>))
                         \o (IF got THEN Need("type.identity", OneToOne(Live \cup ns), [k |-> "one object per definition",
                                             clash |-> {p \in Live : \E q \in ns : (p[1] = q[1]) # (p[2] = q[2])}]) ELSE <<>>)
          /\ IF got /\ HasF(e, "dst") THEN regs' = (e.dst :> [t |-> t, ns |-> ns]) @@ regs /\ seen' = seen \cup (Ids(t) \ {0}) ELSE UNCHANGED <<regs, seen>>
    /\ Same /\ Advance
Reset == /\ More /\ E.op = "reset" /\ regs' = <<>> /\ seen' = {} /\ slots' = <<>> /\ cachedmods' = <<>> /\ UNCHANGED bad /\ Advance
Drop ==
    /\ More /\ E.op = "drop" /\ regs' = [i \in DOMAIN regs \ {E.x[1]} |-> regs[i]] /\ UNCHANGED <<seen, bad>> /\ Same /\ Advance
MkMod ==
    /\ More /\ E.op = "mkmod"
    /\ LET e == E
           live == LiveLabels
           held == e.cache = 1 /\ e.name \in DOMAIN cachedmods /\ cachedmods[e.name] \in live
       IN /\ bad' = bad \o Need("mod.make", e.r.k = "mod" /\ e.r.is = 1 /\ (IF held THEN e.r.m = cachedmods[e.name]
                                              ELSE e.r.m \notin live), [k |-> "mod", held |-> held, live |-> live])
          /\ IF Canary(e) THEN Same
             ELSE /\ slots' = (e.m :> e.r.m) @@ slots
                  /\ cachedmods' = IF e.cache = 1 THEN (e.name :> e.r.m) @@ cachedmods ELSE cachedmods
    /\ UNCHANGED <<regs, seen>> /\ Advance
\* what a type says about itself
Report ==
    /\ More /\ E.op = "report"
    /\ LET e == E
           t == T(e.x[1])
           r == Root(Unmod(t))
           q == e.r
           bound == r.k \in Bound
           un == IF r.k = "U" /\ t.k = "U" THEN Unmod(t) ELSE IF bound /\ t.k # "derived" THEN t.base[1] ELSE NoT
       IN bad' = bad \o (
            Need("report.subtypes", \A i \in 1..Len(q.sub) : (q.sub[i].y = 1) = Sub(t, T(q.sub[i].j)), [k |-> "subtypes", r |-> {q.sub[i].j : i \in {z \in 1..Len(q.sub) : Sub(t, T(q.sub[z].j))}}])
            \o Need("report.isadt", (q.adt = 1) = IsADT(t), IsADT(t))
            \o (IF IsADT(t)
                THEN Need("report.bound", (q.bound = 1) = bound, bound)
                     \o (IF Modified(t) THEN <<>> ELSE Need("report.cached", (q.cached = 1) = (bound /\ t.k # "derived" /\ t.id = 0), [k |-> "cached", t |-> t]))
                     \o (IF Modified(t) THEN <<>> ELSE Need("report.unbound", IF un = NoT THEN q.un.k = "exc" /\ q.un.c = "AttributeError" ELSE q.un.k = "type" /\ Canon(q.un.t) = un, [k |-> "unbound", t |-> un]))
                     \o (IF bound THEN Need("report.fields", Fields(t) = Fields([r EXCEPT !.o = Canon(q.fields).o, !.u = Canon(q.fields).u])
                                                                 /\ (q.agree = 1), [k |-> "fields", f |-> Fields(t)]) ELSE <<>>)
                ELSE <<>>))
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
ModReport ==
    /\ More /\ E.op = "modreport"
    /\ LET e == E
           t == T(e.x[1])
           q == e.r
           m == Modified(t)
       IN bad' = bad \o (
            Need("mod.is", (q.is = 1) = m, m)
            \o Need("mod.get", IF m THEN q.get = Last(t.mods) ELSE q.get = "TypeError", t.mods)
            \o Need("mod.all", q.all = t.mods, t.mods)
            \o Need("mod.unwrap", q.unwrap = t.mods /\ Canon(q.un) = Unmod(t), [un |-> Unmod(t), mods |-> t.mods])
            \o Need("mod.wrap", IF IsInjective(t.mods) THEN q.wrapped = 1 ELSE q.wrapped = 2, [k |-> "wrapping what was unwrapped gives the type"])
            \o Need("mod.subclass", \A i \in 1..Len(q.sub) : (q.sub[i].y = 1) = (m /\ Last(t.mods) = q.sub[i].m), [k |-> "subclass of", m |-> t.mods])
            \o Need("mod.instance", \A i \in 1..Len(q.inst) : (q.inst[i].y = 1) = (m /\ Last(t.mods) = q.inst[i].m), [k |-> "instance of", m |-> t.mods])
            \o Need("mod.modifier", q.modifier = 0 /\ q.abstract = 0, [k |-> "a modified type is not a modifier"]))
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
Both ==     \* stripping after pushing is stripping
    /\ More /\ E.op = "both"
    /\ LET e == E
           t == T(e.x[1])
       IN bad' = bad \o (IF PlainKeep(t) /\ CanPush(t, <<>>) /\ NoIds(t) THEN Need("strip.push", e.r.k = "same" /\ e.r.y = 1, [k |-> "the same type"]) ELSE Undef(e))
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
\* types met in values and visits, by identity
TypeOf(e, s) == LET i == CHOOSE q \in 1..Len(e.types) : e.types[q].s = s IN Canon(e.types[i])
RECURSIVE ValOf(_, _)
ValOf(e, v) == [ty |-> TypeOf(e, v.s), tag |-> v.tag, o |-> [i \in 1..Len(v.o) |-> ValOf(e, v.o[i])]]
\* a Bit alternative has no default
HasDefaults(t) == \A x \in Nodes(t) : Root(Unmod(x)).k \in {"sum", "tu"} => \A y \in FieldTypes(Unmod(x)) : ~IsBit(y)
\* values are equal but for members of one value
RECURSIVE ValEq(_, _)
MemberValue(v) == (CHOOSE f \in v.ty.u : f.n = v.tag).t.n
ValEq(a, b) == /\ a.ty = b.ty /\ Len(a.o) = Len(b.o)
               /\ (IF a.ty.k = "enum" THEN MemberValue(a) = MemberValue(b) ELSE a.tag = b.tag)
               /\ \A i \in 1..Len(a.o) : ValEq(a.o[i], b.o[i])
Enumerate ==
    /\ More /\ E.op = "enumerate"
    /\ LET e == E
           t == T(e.x[1])
           vs == Values(t)
           got == {ValOf(e, e.r.v[i]) : i \in 1..Len(e.r.v)}
       IN bad' = bad \o (IF ~HasDefaults(t) THEN Undef(e)
                         ELSE IF e.r.k # "values" THEN Need("enumerate", FALSE, [k |-> "values", n |-> Cardinality(vs)])
                         ELSE Need("enumerate.complete", vs \subseteq got, [k |-> "missing", v |-> vs \ got])
                              \o Need("enumerate.sound", got \subseteq vs, [k |-> "not a value", v |-> got \ vs])
                              \o Need("enumerate.once", Len(e.r.v) = Cardinality(vs), [k |-> "how many", n |-> Cardinality(vs)])
                              \o (LET v == [i \in 1..Len(e.r.v) |-> ValOf(e, e.r.v[i])]
                                      same == {p \in (1..Len(v)) \X (1..Len(v)) : p[1] > p[2] /\ ValEq(v[p[1]], v[p[2]])}
                                  IN  Need("enumerate.equal", {<<p[1], p[2]>> : p \in Range(e.r.eq)} = same /\ Range(e.r.ne) = same
                                                              /\ \A p \in Range(e.r.eq) : p[3] = 1, [k |-> "equal", p |-> same])))
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
Members ==
    /\ More /\ E.op = "members"
    /\ LET e == E
           t == Unmod(T(e.x[1]))
           q == e.r
           value(n) == (CHOOSE f \in t.u : f.n = n).t.n
       IN bad' = bad \o (IF t.k # "enum" THEN <<>>
            ELSE Need("enum.members", {q.m[i].n : i \in 1..Len(q.m)} = {f.n : f \in t.u} /\ Len(q.m) = Cardinality(t.u), t.u)
                 \o Need("enum.attributes", \A i \in 1..Len(q.m) : q.m[i].name = q.m[i].n /\ q.m[i].value = value(q.m[i].n) /\ q.m[i].inst = 1 /\ q.m[i].again = 1, t.u)
                 \o Need("enum.distinct", \A i \in 1..Len(q.eq) : LET p == q.eq[i] IN (p.y = 1) = (value(p.a) = value(p.b)) /\ (p.ne = 1 - p.y) /\ (p.y = 1 => p.h = 1), t.u)
                 \o Need("enum.byvalue", \A i \in 1..Len(q.byvalue) : q.byvalue[i] = "TypeError", [k |-> "exc", c |-> "TypeError"])
                 \o Need("enum.repr", \A i \in 1..Len(q.m) : q.m[i].repr = (IF Modified(T(e.x[1])) THEN q.m[i].repr ELSE t.n \o "." \o q.m[i].n), [k |-> "type and name"])
                 \o Need("enum.new", q.new = 1, [k |-> "new_instruction() differ"])
                 \o Need("enum.through", \A i \in 1..Len(q.through) : q.through[i] = "AttributeError", [k |-> "exc", c |-> "AttributeError"]))
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
Handler(t) == LET r == Root(Unmod(t)) IN
    CASE r.k = "enum" -> "Enum" [] r.k = "product" -> "Product" [] r.k \in {"tuple", "anon"} -> "Tuple" [] r.k = "tu" -> "TaggedUnion" [] r.k = "sum" -> "Sum" [] OTHER -> "leaf"
Down(h) == h \notin {"Enum", "leaf"}
Children(t) == LET r == Root(Unmod(t)) IN IF r.k \in Ordered THEN r.o ELSE SetToSeq(r.u)
RECURSIVE VisitOK(_, _, _)
VisitOK(e, t, v) ==
    /\ TypeOf(e, v.s) = t /\ v.h = Handler(t)
    /\ IF ~Down(v.h) THEN v.c = <<>>
       ELSE LET c == Children(t) IN
            /\ Len(v.c) = Len(c)
            /\ IF Root(Unmod(t)).k \in Ordered THEN \A i \in 1..Len(c) : VisitOK(e, c[i].t, v.c[i])
               ELSE \A x \in FieldTypes(t) : Cardinality({i \in 1..Len(c) : c[i].t = x}) = Cardinality({i \in 1..Len(c) : VisitOK(e, x, v.c[i])})
\* handlers met when those in H are overridden and those in P do not go on
RECURSIVE Met(_, _, _)
Met(t, H, P) == LET h == Handler(t)
                    c == IF Down(h) /\ h \notin P THEN Children(t) ELSE <<>>
                IN  FoldLeft(LAMBDA acc, f : acc \o Met(f.t, H, P), IF h \in H THEN <<<<h, t>>>> ELSE <<>>, c)
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Visit ==
    /\ More /\ E.op = "visit"
    /\ LET e == E
           t == T(e.x[1])
           m == Met(t, Range(e.over), Range(e.prune))
           got == [i \in 1..Len(e.r.some) |-> <<e.r.some[i].h, TypeOf(e, e.r.some[i].s)>>]
       IN bad' = bad \o (IF e.r.k # "visit" THEN Need("visit", FALSE, [k |-> "visits"])
                         ELSE Need("visit.all", VisitOK(e, t, e.r.all), [k |-> "every node once, in order", t |-> t])
                              \o Need("visit.some", Len(got) = Len(m) /\ \A x \in Range(m) : CountIn(got, x) = CountIn(m, x), [k |-> "visits", m |-> m]))
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
Refused ==
    /\ More /\ E.op = "refused"
    /\ bad' = bad \o Need("type.refused", E.r.k = "exc" /\ E.r.c \in Range(E.want), [k |-> "exc", c |-> E.want])
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
\* a class body: which of its entries are fields and which attributes, and
\* that the same body again is the same type, one with another method is not
Body ==
    /\ More /\ E.op = "body"
    /\ LET e == E
           q == e.r
           fs == SelectSeq(e.items, LAMBDA x : IsField(x.cs, e.kind, x.v))
           names(s) == [i \in 1..Len(s) |-> s[i].n]
       IN bad' = bad \o (IF q.k # "body" THEN Need("body", FALSE, names(fs))
            ELSE Need("body.fields", (q.bound = 1) = (fs # <<>>) /\ Range(q.fields) = Range(names(fs)) /\ Len(q.fields) = Len(fs), names(fs))
                 \o (IF e.kind = "product" THEN Need("body.order", q.fields = names(fs), names(fs)) ELSE <<>>)
                 \o Need("body.values", \A i \in 1..Len(q.same) : q.same[i] = 1, [k |-> "every entry as given"])
                 \o Need("body.again", (q.again = 1) = (fs # <<>> /\ e.cache = 1), [k |-> "the same body again"])
                 \o Need("body.other", \A i \in 1..Len(q.other) : q.other[i] = 0, [k |-> "another method, another type"]))
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
Untouched ==
    /\ More /\ E.op = "untouched"
    /\ bad' = bad \o Need("rebind.untouched", E.r.k = "same" /\ E.r.y = 1, [k |-> "the same object"])
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
IsADTOf ==
    /\ More /\ E.op = "isadt"
    /\ bad' = bad \o Need("isadt", (E.r.y = 1) = (IF HasF(E, "x") THEN IsADT(T(E.x[1])) ELSE FALSE), [k |-> "is_adt_type"])
    /\ UNCHANGED <<regs, seen>> /\ Same /\ Advance
Init == TraceInit /\ regs = <<>> /\ seen = {} /\ slots = <<>> /\ cachedmods = <<>>
Done == TraceDone /\ UNCHANGED <<regs, seen, slots, cachedmods>>
Next == TypeOp \/ Reset \/ Drop \/ MkMod \/ Report \/ ModReport \/ Both \/ Enumerate \/ Members \/ Visit \/ Refused \/ Body \/ Untouched \/ IsADTOf \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
