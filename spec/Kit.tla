------------------------------- MODULE Kit -------------------------------
(* Shared by all generator and trace specifications.                      *)
(*   Emit(x)      append x as one JSON line to the file named by GEN_OUT  *)
(*   Tr           the recorded trace (ndjson file named by TRACE)         *)
(*   Report(l,S)  S is the set of clauses that line l breaks              *)
(*   Bad(c, name) {name} if the condition c is false                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Emit(x) == Serialize(ToJson(x) \o "\n", IOEnv.GEN_OUT,
             [format |-> "TXT", charset |-> "UTF-8",
              openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Tr == ndJsonDeserialize(IOEnv.TRACE)

Bad(cond, name) == IF cond THEN {} ELSE {name}

Report(l, cl) == IF cl = {} THEN TRUE
                 ELSE PrintT("BAD " \o ToJson([line |-> l, clauses |-> cl]))

Done == PrintT("DONE " \o ToString(TLCGet("stats").diameter - 1))

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(s, t, tol) == /\ Len(s) = Len(t)
                      /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
Range(s) == {s[i] : i \in 1..Len(s)}
Has(r, f) == f \in DOMAIN r
LOCAL SX == INSTANCE SequencesExt
FoldL(Op(_, _), base, s) == SX!FoldLeft(Op, base, s)
SumSeq(s) == FoldL(LAMBDA a, x : a + x, 0, s)
\* running sums
Cum(s) == FoldL(LAMBDA a, x : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + x), <<>>, s)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* random choices for generators: R(S) is re-drawn at each evaluation, so use it only to define a primed variable
R(S) == RandomElement(S)
RSeq(S, m, n) == [i \in 1..RandomElement(m..n) |-> RandomElement(S)]
Chance(p) == RandomElement(1..100) <= p
Sel(s, Test(_)) == SelectSeq(s, Test)
IsSubseq(s, t) == \* s can be obtained from t by deleting elements
  LET F[i \in 0..Len(s), j \in 0..Len(t)] ==
        IF i = 0 THEN TRUE ELSE IF j = 0 THEN FALSE
        ELSE IF s[i] = t[j] THEN F[i-1, j-1] ELSE F[i, j-1]
  IN F[Len(s), Len(t)]
=============================================================================
