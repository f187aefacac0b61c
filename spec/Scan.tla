-------------------------------- MODULE Scan --------------------------------
(* first and last x in lo..h with f[x], or -1 (lo >= 0): by halves, since    *)
(* TLC's cost of a recursion grows with its depth                            *)
LOCAL INSTANCE Integers
RECURSIVE NarrowFirst(_, _, _)
NarrowFirst(f, lo, h) == IF lo = h THEN lo ELSE LET m == (lo + h) \div 2 IN IF \E x \in lo..m : f[x] THEN NarrowFirst(f, lo, m) ELSE NarrowFirst(f, m + 1, h)
FirstTrue(f, lo, h) == IF \E x \in lo..h : f[x] THEN NarrowFirst(f, lo, h) ELSE -1
RECURSIVE NarrowLast(_, _, _)
NarrowLast(f, lo, h) == IF lo = h THEN lo ELSE LET m == (lo + h) \div 2 IN IF \E x \in m + 1..h : f[x] THEN NarrowLast(f, m + 1, h) ELSE NarrowLast(f, lo, m)
LastTrue(f, lo, h) == IF \E x \in lo..h : f[x] THEN NarrowLast(f, lo, h) ELSE -1
=============================================================================
