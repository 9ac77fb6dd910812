------------------------------ MODULE ValPool ------------------------------
(* The types the histories of values are made of. *)
EXTENDS ValHeap
LOCAL L(n) == Leaf(n, 0)
LOCAL F(n, t) == Fld(n, t)
LOCAL I == L("int")
LOCAL AB == <<F("a", I), F("b", L("A"))>>
LOCAL T1 == Tup(<<I, L("A")>>)
LOCAL P == Bind(Builtin.Product, AB, "P", 0)
LOCAL S1 == Bind(SumU, <<F("", I), F("", L("K")), F("", L("A"))>>, "", 0)
LOCAL E == Bind(Builtin.Enum, <<F("p", L("0")), F("q", L("1")), F("r", L("0"))>>, "E", 0)
LOCAL V == Bind(Builtin.TaggedUnion, <<F("u", I), F("w", I), F("z", T1)>>, "V", 0)
Pool == [
    int |-> I, K |-> L("K"), A |-> L("A"), C |-> L("C"), Bit |-> L("Bit"), BV |-> Leaf("BitVector", 2), str |-> L("str"), NoneType |-> L("NoneType"),
    T0 |-> Tup(<<>>), T1 |-> T1, T2 |-> Tup(<<I, T1>>), T3 |-> Tup(<<T1, S1, E>>), TB |-> Tup(<<Leaf("BitVector", 2), L("Bit")>>),
    X |-> Bind(AnonU, AB, "", 0), P |-> P, UP |-> Bind(Builtin.Product, AB, "P", 501),
    Q |-> Bind(Builtin.Product, <<F("self", S1), F("cls", P), F("x", T1), F("e", E)>>, "Q", 0),
    Y |-> Bind(AnonU, <<F("self", I), F("super", V), F("type", T1)>>, "", 0),
    D |-> Mk("derived", "Derived", 0, <<P>>, <<>>, {}, 502), MP |-> Wrap(P, <<"M">>),
    S1 |-> S1, S2 |-> Bind(SumU, <<F("", T1), F("", P), F("", E)>>, "", 0), DS |-> Mk("derived", "Derived", 0, <<S1>>, <<>>, {}, 503),
    V |-> V, W |-> Bind(Builtin.TaggedUnion, <<F("self", P), F("cls", V), F("n", I)>>, "W", 0), DV |-> Mk("derived", "Derived", 0, <<V>>, <<>>, {}, 504),
    E |-> E]
Objects == {"T0", "T1", "T2", "T3", "TB", "X", "P", "UP", "Q", "Y", "D", "MP", "S1", "S2", "DS", "V", "W", "DV"}
Literals == {Const("int", n) : n \in {"0", "1", "2"}} \cup {Const("K", n) : n \in {"0", "1"}} \cup {Const("A", n) : n \in {"0", "1"}} \cup {Const("C", "0")}
            \cup {Const("Bit", n) : n \in {"0", "1"}} \cup {Const("BV", n) : n \in {"0", "3"}} \cup {Const("str", "s"), Const("NoneType", "None")}
            \cup {Mem("E", n) : n \in {"p", "q", "r"}}
=============================================================================
