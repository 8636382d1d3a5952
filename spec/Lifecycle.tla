----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* One estimator object and the queries made on it.  The object's answers   *)
(* are functions of the request alone, except the effective value, which    *)
(* contains one random evaluation and is fixed by the first successful      *)
(* query.  V stands for the global value, L for the local values (or their  *)
(* refusal), E for the effective value fixed so far.  A fault strikes while   *)
(* null values are drawn; one that does not strike leaves the plain query.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Tests == {"test_permutation", "test_bootstrap", "test_default"}
Refusals == {"test_zero", "test_one", "test_text", "test_method"}
Faults == {"fail_permutation_1", "fail_permutation_2", "fail_bootstrap_1", "fail_bootstrap_2"}
Effectives == {"effective", "effective_bootstrap"}
EffFaults == {"fail_effective", "effective_method"}
Always == {"result", "local", "calculate", "other"}
\* the queries an object of a class offers
Offered(class) == CASE class = "entropy" -> Always
                    [] class = "information" -> Always \cup Tests \cup Refusals \cup Faults
                    [] OTHER -> Always \cup Tests \cup Refusals \cup Faults \cup Effectives \cup EffFaults
Fresh == [effective |-> FALSE]
\* what a query answers and the object afterwards
Ask(s, q) ==
    CASE q \in {"result"} -> [ans |-> "V", s |-> s]
      [] q = "local" -> [ans |-> "L", s |-> s]
      [] q \in {"calculate", "other"} -> [ans |-> "none", s |-> s]
      [] q \in Tests -> [ans |-> "test", s |-> s]
      [] q \in Refusals -> [ans |-> "refused", s |-> s]
      [] q \in Faults -> [ans |-> "fault", s |-> s]
      [] q \in Effectives -> [ans |-> IF s.effective THEN "same E" ELSE "E", s |-> [s EXCEPT !.effective = TRUE]]
      [] q \in EffFaults -> [ans |-> IF s.effective THEN "same E" ELSE IF q = "fail_effective" THEN "fault" ELSE "refused",
                             s |-> s]
=============================================================================
