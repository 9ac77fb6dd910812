------------------------------- MODULE TypeTrace -------------------------------
(***************************************************************************)
(* Histories of types recorded from the real families.  serial maps the     *)
(* types that are certainly alive to the identity of the object seen.       *)
(***************************************************************************)
EXTENDS TypeTheory, TraceLib
VARIABLES cls, held, serial, names
vars == <<l, bad, cls, held, serial, names>>

Alive(T) == \E h \in held : T \in Keeps(cls, h)
Typed(r) == r.k = "type"
Exc(r, cs) == r.k = "exc" /\ r.c \in cs
Any3 == {"TypeError", "ValueError", "IndexError"}

\* what is observed of a type T after the step (cls', held', serial' are the new state)
SizeOk(o, T) == o.size = Size(cls', T) /\ o.sized = (IF Size(cls', T) = NoSize THEN 0 ELSE 1)
UnsizedOk(o, T) == IF Len(T) = 2 THEN o.unsized = T[1]
                   ELSE IF Open(cls', T[1]) THEN o.unsized = T[1] ELSE o.unsized = 0   \* none: AttributeError
NameOk(o, T) == o.name = (IF Len(T) = 1 THEN names'[T[1]] ELSE names'[T[1]] \o "[" \o o.kt \o "]")
SubOk(o, T) == \A i \in 1..Len(o.sub) :
                  LET q == o.sub[i] IN q.up = (IF Subtype(cls', T, q.t) THEN 1 ELSE 0) /\ q.down = (IF Subtype(cls', q.t, T) THEN 1 ELSE 0)
\* the module of a sized type is its class's
ModOk(o) == "mod" \in DOMAIN o => o.mod = o.wantmod
\* parameters of a floating point type, as requested
FmtOk(o, T) == "fmt" \in DOMAIN o => o.fmt = o.want /\ (o.fmt.k = "bound" => o.bits = 1 + o.fmt.e + o.fmt.m)
Obs(o, T) == Need("type.size", SizeOk(o, T), [k |-> "size", size |-> Size(cls', T)])
             \o Need("type.unsized", UnsizedOk(o, T), [k |-> "unsized", c |-> IF Len(T) = 2 \/ Open(cls', T[1]) THEN T[1] ELSE 0])
             \o Need("type.name", NameOk(o, T), [k |-> "name", c |-> names'[T[1]]])
             \o Need("type.module", ModOk(o), [k |-> "the module of its class"])
             \o Need("type.lattice", SubOk(o, T), [k |-> "subtypes", of |-> T, sup |-> Sup(cls', T)])
             \o Need("type.format", FmtOk(o, T), [k |-> "format"])

Reset == /\ More /\ E.op = "reset"
         /\ cls' = E.cls /\ names' = E.names /\ held' = {<<i>> : i \in 1..Len(E.cls)} /\ serial' = [t \in {<<i>> : i \in 1..Len(E.cls)} |-> t[1]]
         /\ UNCHANGED bad /\ Advance
Define ==
    /\ More /\ E.op = "define"
    /\ LET ok == Definable(cls, E.bases)
           T == <<Len(cls) + 1>>
       IN  IF ok /\ Typed(E.r)
           THEN /\ cls' = Append(cls, E.bases) /\ names' = Append(names, E.name) /\ held' = held \cup {T} /\ serial' = (T :> E.r.s) @@ serial
                /\ bad' = bad \o Obs(E.r, T)
           ELSE /\ UNCHANGED <<cls, names, held, serial>>
                /\ bad' = bad \o Need("type.define", ~ok /\ Exc(E.r, {"TypeError"}), IF ok THEN [k |-> "type"] ELSE [k |-> "exc", c |-> "TypeError"])
    /\ Advance
Index ==
    /\ More /\ E.op = "index"
    /\ LET T == <<E.c, E.key>>
           ok == Open(cls, E.c)
       IN  IF ok /\ Typed(E.r)
           THEN /\ held' = held \cup {T} /\ serial' = (T :> E.r.s) @@ serial /\ UNCHANGED <<cls, names>>
                /\ bad' = bad \o Need("type.unique", Alive(T) /\ T \in DOMAIN serial => E.r.s = serial[T], [k |-> "the same type object"])
                              \o Need("type.distinct", \A U \in DOMAIN serial : U # T => serial[U] # E.r.s, [k |-> "a type of its own"])
                              \o Obs(E.r, T)
           ELSE /\ UNCHANGED <<cls, names, held, serial>>
                /\ bad' = bad \o Need("type.index", ~ok /\ Exc(E.r, {"TypeError"}), IF ok THEN [k |-> "type"] ELSE [k |-> "exc", c |-> "TypeError"])
    /\ Advance
\* a type with a size cannot be indexed
Again ==
    /\ More /\ E.op = "again" /\ UNCHANGED <<cls, names, held, serial>>
    /\ bad' = bad \o Need("type.again", Exc(E.r, {"TypeError"}), [k |-> "exc", c |-> "TypeError"])
    /\ Advance
BadIndex ==
    /\ More /\ E.op = "bad" /\ UNCHANGED <<cls, names, held, serial>>
    /\ LET cs == IF Len(E.t) = 2 \/ ~Open(cls, E.t[1]) THEN Any3
                 ELSE IF E.form = "neg" THEN {"ValueError"}
                 ELSE IF E.fam = "fp" THEN (IF E.form = "not a tuple" THEN {"TypeError", "IndexError"} ELSE {"IndexError"})
                 ELSE {"TypeError"}
       IN  bad' = bad \o Need("type.badindex", Exc(E.r, cs), [k |-> "exc", c |-> cs])
    /\ Advance
Drop ==
    /\ More /\ E.op = "drop" /\ UNCHANGED <<cls, names, bad>>
    /\ LET h == held \ {E.t}
       IN  /\ held' = h
           /\ serial' = [T \in {U \in DOMAIN serial : \E x \in h : U \in Keeps(cls, x)} |-> serial[T]]
    /\ Advance
\* whatever is collected, what is held stays as it was
Collect ==
    /\ More /\ E.op = "gc" /\ UNCHANGED <<cls, names, held, serial>>
    /\ bad' = bad \o FlattenSeq([i \in 1..Len(E.post) |-> Obs(E.post[i].o, E.post[i].t)])
    /\ Advance
\* the members of a family are reached from each of its types and values
Members == [abstract |-> <<"AbstractBit", "AbstractBitVector", "none", "none">>,
            c |-> <<"Bit", "BitVector", "UIntVector", "SIntVector">>,
            s |-> <<"SMTBit", "SMTBitVector", "SMTUIntVector", "SMTSIntVector">>,
            z |-> <<"z3Bit", "z3BitVector", "z3UIntVector", "z3SIntVector">>]
Family ==
    /\ More /\ E.op = "family" /\ UNCHANGED <<cls, names, held, serial>>
    /\ bad' = bad \o Need("type.family", E.r.k = "family" /\ E.r.of = Members[E.fam], [k |-> "family", of |-> Members[E.fam]])
    /\ Advance
Init == TraceInit /\ cls = <<>> /\ held = {} /\ serial = <<>> /\ names = <<>>
Done == TraceDone /\ UNCHANGED <<cls, held, serial, names>>
Next == Reset \/ Define \/ Index \/ Again \/ BadIndex \/ Family \/ Drop \/ Collect \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
