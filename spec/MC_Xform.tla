----------------------------- MODULE MC_Xform -------------------------------
(* Every composition of up to Depth elementary transforms: it stays affine; a rigid one is inverted by transposing its rotation;
   a composition T R S is recovered from the column lengths. *)
EXTENDS Xform, TLC
CONSTANT Depth
VARIABLES d, rigid, src
vars == << m, d, rigid, src >>
QS == { <<0, 0, 0, 2>>, <<1, 1, 1, 1>>, <<-1, 1, -1, 1>>, <<2, 0, 0, 0>>, <<1, 1, -1, -1>> }
TS == { <<One, -2*One, 0>>, <<0, 3*One, 2*One>> }
SS == { <<2*One, One, 3*One>>, <<One, 4*One, One>> }
Init == XInit /\ d = 0 /\ rigid = TRUE /\ src = << >>
Act(M, r) == m' = M /\ d' = d + 1 /\ rigid' = (rigid /\ r) /\ src' = << >>
Next == d < Depth /\
  \/ \E t \in TS : Act(After(TMat(t)), TRUE) \/ Act(Before(TMat(t)), TRUE)
  \/ \E s \in SS : Act(After(SMat(s)), FALSE) \/ Act(Before(SMat(s)), FALSE)
  \/ \E q \in QS : Act(After(RMat(q)), TRUE) \/ Act(Before(RMat(q)), TRUE)
  \/ \E t \in TS, q \in QS, s \in SS : m' = Model(t, q, s) /\ d' = Depth /\ rigid' = FALSE /\ src' = << t, q, s >>
Spec == Init /\ [][Next]_vars
Inv ==
  /\ Affine(m)
  /\ rigid => IsRigid(m) /\ Norm1(MMul(RigidInverse(m), m)) = Unit4 /\ Norm1(MMul(m, RigidInverse(m))) = Unit4
  /\ src # << >> => /\ Position(m) = src[1] /\ \A i \in 1..3 : ColSq(m, i) = src[3][i] * src[3][i]
                    /\ \A i \in 1..3 : [k \in 1..3 |-> m[i][k] * One] = [k \in 1..3 |-> RMat(src[2])[i][k] * src[3][i]]
=============================================================================
