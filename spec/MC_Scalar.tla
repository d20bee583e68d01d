----------------------------- MODULE MC_Scalar ------------------------------
(* Laws of the scalar helpers, one state per operand tuple. *)
EXTENDS Scalar, FiniteSets
VARIABLES v
Init == v \in (-40..40) \X {-33, -5, 0, 7, 16} \X (0..16) \X (1..4)
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
X == v[1]  B == v[2]  T == v[3]  K == v[4]
Repeats(x) == { r \in 0..Unit : IsRepeat(x, r) }
Laws ==
  \* repetition is a function, of period one on either side of zero, and does nothing to numbers already inside
  /\ Cardinality(Repeats(X)) = 1
  /\ (X >= 0 => Repeats(X + Unit) = Repeats(X)) /\ (X < 0 => Repeats(X - Unit) = Repeats(X))
  /\ (0 <= X /\ X < Unit => Repeats(X) = {X})
  \* interpolation starts at a, ends at b, is the same way backwards and stays between
  /\ LerpAt(X, B, 0) = Unit * X /\ LerpAt(X, B, Unit) = Unit * B /\ LerpAt(X, B, T) = LerpAt(B, X, Unit - T)
  /\ Least2(X, B) * Unit <= LerpAt(X, B, T) /\ LerpAt(X, B, T) <= Most2(X, B) * Unit
  \* two short frames are one long frame: rest after i + j steps is rest(i) * rest(j)
  /\ \A i, j \in 0..2 : \A f \in 0..4 : LET n == i + j IN
       Toward(X, B, f, n, n) = IPow(4, i) * (IPow(4, j) * B) - Left(f, i, i) * Left(f, j, j) * (B - X)
  \* gain fixes the ends and the middle, is symmetric and rises
  /\ GainAt(0, K) = 0 /\ GainAt(Unit, K) = 2 * IPow(8, K) /\ GainAt(8, K) = IPow(8, K)
  /\ GainAt(T, K) + GainAt(Unit - T, K) = 2 * IPow(8, K)
  /\ (T < Unit => GainAt(T, K) <= GainAt(T + 1, K)) /\ (K = 1 => GainAt(T, 1) = T)
=============================================================================
