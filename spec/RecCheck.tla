------------------------------ MODULE RecCheck ------------------------------
(* Skeleton of all record-validation specifications.                        *)
(* A driver runs the real code and writes one JSON object per call (inputs  *)
(* and observed outputs).  An instance of this module defines the relation  *)
(* Ok(record) between inputs and outputs which the property demands; the    *)
(* behaviour below consumes the records one after the other, and reports    *)
(* every record which is not in the relation.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE recno        \* number of records consumed so far

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* named clause: if it fails, TLC prints its name (used in the diagnosis)
Clause(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"CLAUSE", name>>) /\ FALSE

RecInit == recno = 0
RecStep(Ok(_)) ==
  /\ recno < Len(Trace)
  /\ recno' = recno + 1
  /\ IF Ok(Trace[recno + 1]) THEN TRUE ELSE PrintT(<<"REJECT", recno + 1>>)
\* the same for relations which return the set of violated clauses
RecStepSet(Bad(_)) ==
  /\ recno < Len(Trace)
  /\ recno' = recno + 1
  /\ LET b == Bad(Trace[recno + 1]) IN
       IF b = {} THEN TRUE ELSE (\A x \in b : PrintT(<<"CLAUSE", x>>)) /\ PrintT(<<"REJECT", recno + 1>>)

\* helpers shared by the relations
Range1(s) == { s[i] : i \in 1..Len(s) }
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumFun(_, _)
SumFun(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFun(f, S \ {x})
=============================================================================
