------------------------------- MODULE Scalar -------------------------------
(* Scalar helper functions on numbers counted in sixteenths. *)
EXTENDS Integers
Unit == 16
Least2(a, b) == IF b < a THEN b ELSE a
Most2(a, b) == IF b > a THEN b ELSE a
SignOf(x) == IF x < 0 THEN -1 ELSE 1
\* x moved by whole numbers into the unit interval: [0, 1) from zero up, (0, 1] below zero
IsRepeat(x, r) == (x - r) % Unit = 0 /\ IF x < 0 THEN 0 < r /\ r <= Unit ELSE 0 <= r /\ r < Unit
\* between a and b at t/16, in 1/256
LerpAt(a, b, t) == Unit * a + t * (b - a)
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
\* what is left of the way after dt steps that each leave f/4 of it, times 4^n
Left(f, dt, n) == IPow(f, dt) * IPow(4, n - dt)
\* towards b for dt steps, times 4^n (n >= dt)
Toward(a, b, f, dt, n) == IPow(4, n) * a + (IPow(4, n) - Left(f, dt, n)) * (b - a)
\* gain with exponent k at x/16, times 2 * 8^k: below one half (2x)^k / 2, above it mirrored
GainAt(x, k) == IF 2 * x < Unit THEN IPow(x, k) ELSE 2 * IPow(8, k) - IPow(Unit - x, k)
=============================================================================
