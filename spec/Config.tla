------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The library's configuration: the log base, the default test method and   *)
(* the default number of tests, and the operations on them.                 *)
(* An operation is a record with field op:                                   *)
(*   set (key, val) | unit (name) | reset                                    *)
(* Values are tagged: <<"num", n, d>>, <<"text", s>>, <<"other", s>>.        *)
(***************************************************************************)
EXTENDS Terms

Text(s)   == <<"text", s>>
Num(n, d) == <<"num", n, d>>
Whole(n)  == <<"num", n, 1>>
Float(n)  == <<"float", n, 1>>       \* a floating-point whole number
Other(s)  == <<"other", s>>          \* a value of some other type

Default == [base |-> Text("e"), statistical_test_method |-> Text("permutation_test"),
            statistical_test_n_tests |-> Whole(200)]
Keys == DOMAIN Default
IsNumber(v) == v[1] \in {"num", "float"}
IsWhole(v)  == v[1] = "num" /\ v[3] = 1
Accepted(key, v) ==
    CASE key = "base" -> IsNumber(v) \/ v = Text("e")
      [] key = "statistical_test_method" -> v \in {Text("permutation_test"), Text("bootstrap")}
      [] OTHER -> IsWhole(v)

Bits == {"bits", "bit", "shannons", "shannon"}
Nats == {"nats", "nat", "nit", "nepit"}
Dits == {"hartleys", "hartley", "bans", "ban", "dits", "dit"}
UnitBase(u) == CASE u \in Bits -> Whole(2) [] u \in Nats -> Text("e") [] u \in Dits -> Whole(10)
                 [] OTHER -> Other("unknown")
SameNumber(v, n) == IsNumber(v) /\ v[2] = n * v[3]
UnitName(b) == CASE SameNumber(b, 2) -> "bit/shannon" [] b = Text("e") -> "nat/nit/nepit"
                 [] SameNumber(b, 10) -> "hartley/ban/dit" [] OTHER -> "unknown"

\* [err, cfg]: the error raised ("" for none) and the settings afterwards
Apply(cfg, o) ==
    CASE o.op = "reset" -> [err |-> "", cfg |-> Default]
      [] o.op = "unit" ->
            \* names are recognised whatever their case; o.low is the name in lower case
            IF UnitBase(o.low) = Other("unknown") THEN [err |-> "ValueError", cfg |-> cfg]
            ELSE [err |-> "", cfg |-> [cfg EXCEPT !.base = UnitBase(o.low)]]
      [] o.op = "set" ->
            IF o.key \notin Keys THEN [err |-> "KeyError", cfg |-> cfg]
            ELSE IF ~Accepted(o.key, o.val) THEN [err |-> "TypeError", cfg |-> cfg]
            ELSE [err |-> "", cfg |-> [cfg EXCEPT ![o.key] = o.val]]
      [] OTHER -> [err |-> "", cfg |-> cfg]           \* reading, measuring: nothing changes

\* the base a call uses: its own argument, else the configured one
Effective(cfg, given) == IF given = <<>> THEN cfg.base ELSE given
InUnits(t, b) == IF b = Text("e") THEN t ELSE Div(t, LnQ(b[2], b[3]))
=============================================================================
