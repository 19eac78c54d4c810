----------------------------- MODULE PeanoModel ----------------------------
\* TLC: the inductive argument of Peano over all states, and the properties
\* themselves, exhaustively, for the first Bits levels.
EXTENDS Peano
CONSTANT Bits
VARIABLE n
Cells(b) == (0..(2^b - 1)) \X (0..(2^b - 1)) \X (0..(2^b - 1))
RECURSIVE Num(_)
Num(k) == IF k = <<>> THEN 0 ELSE 8 * Num(SubSeq(k, 1, Len(k) - 1)) + k[Len(k)]
Abs(a) == IF a < 0 THEN -a ELSE a
Level(b) ==
    LET key == [c \in Cells(b) |-> Key(c[1], c[2], c[3], b)]
        num == [c \in Cells(b) |-> Num(key[c])]
        inv == [k \in 0..(8^b - 1) |-> CHOOSE c \in Cells(b) : num[c] = k]
    IN /\ {num[c] : c \in Cells(b)} = 0..(8^b - 1)
       /\ \A k \in 0..(8^b - 2) :
            Abs(inv[k][1] - inv[k+1][1]) + Abs(inv[k][2] - inv[k+1][2]) + Abs(inv[k][3] - inv[k+1][3]) = 1
       /\ b > 1 => \A c \in Cells(b) :
            SubSeq(key[c], 1, b - 1) = Key(c[1] \div 2, c[2] \div 2, c[3] \div 2, b - 1)
Init == n = 0
Next == n < Bits /\ n' = n + 1
Spec == Init /\ [][Next]_n
Proved == Induction
Holds == n > 0 => Level(n)
=============================================================================
