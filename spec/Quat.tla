-------------------------------- MODULE Quat --------------------------------
(* Quaternion algebra over the integers, homogeneous: nothing here divides, so every operator is exact in products of units.
   A quaternion is << x, y, z, w >> as in the library. *)
EXTENDS Mat
QMul(a, b) == << a[4]*b[1] + a[1]*b[4] + a[2]*b[3] - a[3]*b[2],
                 a[4]*b[2] + a[2]*b[4] + a[3]*b[1] - a[1]*b[3],
                 a[4]*b[3] + a[3]*b[4] + a[1]*b[2] - a[2]*b[1],
                 a[4]*b[4] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3] >>
QConj(q) == << -q[1], -q[2], -q[3], q[4] >>
QNeg(q) == << -q[1], -q[2], -q[3], -q[4] >>
QDot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4]
QNorm(q) == QDot(q, q)
QOfVec(v) == << v[1], v[2], v[3], 0 >>
VecOf(q) == << q[1], q[2], q[3] >>
QRot(q, v) == VecOf(QMul(QMul(q, QOfVec(v)), QConj(q)))          \* times QNorm(q)
\* rotation matrix times QNorm(q), by columns
RotMat(q) == LET x == q[1]  y == q[2]  z == q[3]  w == q[4] IN
  << << w*w + x*x - y*y - z*z, 2 * (x*y + w*z), 2 * (x*z - w*y) >>,
     << 2 * (x*y - w*z), w*w - x*x + y*y - z*z, 2 * (y*z + w*x) >>,
     << 2 * (x*z + w*y), 2 * (y*z - w*x), w*w - x*x - y*y + z*z >> >>
\* turning about X first, then Y, then Z; each factor is << sine, cosine >> of the half angle
QEuler(X, Y, Z) == QMul(QMul(<<0, 0, Z[1], Z[2]>>, <<0, Y[1], 0, Y[2]>>), <<X[1], 0, 0, X[2]>>)
=============================================================================
