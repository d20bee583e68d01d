------------------------------ MODULE MC_Quat -------------------------------
(* Laws of the quaternion operators: every quaternion with components in -R..R against the Hurwitz units (in halves). *)
EXTENDS Quat, TLC
CONSTANT R
VARIABLES a, b
vars == << a, b >>
Comp == -R..R
Units == { q \in [1..4 -> -2..2] : QNorm(q) = 4 /\ ((\A i \in 1..4 : q[i] % 2 = 1) \/ (\A i \in 1..4 : q[i] % 2 = 0)) }
T(q) == << q[1], q[2], q[3], q[4] >>
Init == a \in {T(q) : q \in [1..4 -> Comp]} /\ b = << 0, 0, 0, 2 >>
Next == b = << 0, 0, 0, 2 >> /\ a' = a /\ b' \in {T(q) : q \in Units}
Spec == Init /\ [][Next]_vars
K(M, k) == MapM(LAMBDA x : k * x, M)
Half4(q) == << q[1] \div 2, q[2] \div 2, q[3] \div 2, q[4] \div 2 >>
V == << 3, -5, 7 >>
Laws ==
  /\ QNorm(QMul(a, b)) = QNorm(a) * QNorm(b)
  /\ QConj(QMul(a, b)) = QMul(QConj(b), QConj(a)) /\ QMul(a, QConj(a)) = << 0, 0, 0, QNorm(a) >>
  /\ RotMat(QMul(a, b)) = MMul(RotMat(a), RotMat(b))
  /\ QRot(a, V) = MVec(RotMat(a), V) /\ QRot(QMul(a, b), V) = QRot(a, QRot(b, V))
  /\ MMul(RotMat(a), Transpose(RotMat(a))) = K(Identity(3, 3), QNorm(a) * QNorm(a))
  /\ Det(RotMat(a)) = QNorm(a) * QNorm(a) * QNorm(a)
Group == a \in {T(q) : q \in Units} => Half4(QMul(a, b)) \in {T(q) : q \in Units}
\* the closed form the library uses for Euler angles
Euler == LET sX == a[1]  cX == a[2]  sY == a[3]  cY == a[4]  sZ == b[1]  cZ == b[2] IN
  QEuler(<<sX, cX>>, <<sY, cY>>, <<sZ, cZ>>) =
    << sX*cY*cZ - cX*sY*sZ, cX*sY*cZ + sX*cY*sZ, cX*cY*sZ - sX*sY*cZ, cX*cY*cZ + sX*sY*sZ >>
=============================================================================
