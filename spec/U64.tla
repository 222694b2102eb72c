-------------------------------- MODULE U64 --------------------------------
(***************************************************************************)
(* Unsigned words as big-endian sequences of limbs, because TLC's integers *)
(* have 32 bits.  Base is 65536 in traces (four limbs make a 64-bit word)  *)
(* and small where the arithmetic itself is checked against integers.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Base

IsZero(a) == \A n \in 1..Len(a) : a[n] = 0

RECURSIVE LtAt(_, _, _)
LtAt(a, b, n) == IF n > Len(a) THEN FALSE
                 ELSE IF a[n] # b[n] THEN a[n] < b[n]
                 ELSE LtAt(a, b, n + 1)
Lt(a, b) == LtAt(a, b, 1)

\* a - b for ~Lt(a, b)
RECURSIVE SubAt(_, _, _, _)
SubAt(a, b, n, borrow) ==
  IF n = 0 THEN <<>>
  ELSE LET d == a[n] - b[n] - borrow
       IN Append(SubAt(a, b, n - 1, IF d < 0 THEN 1 ELSE 0), IF d < 0 THEN d + Base ELSE d)
Sub(a, b) == SubAt(a, b, Len(a), 0)
=============================================================================
