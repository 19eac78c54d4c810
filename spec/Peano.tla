------------------------------- MODULE Peano -------------------------------
(***************************************************************************)
(* The Peano-Hilbert curve of Gadget, as an automaton.                     *)
(*                                                                         *)
(* The state is an orientation (24 rotations) and a sense (+1 or -1).  For *)
(* each level of the grid, from the top, the three coordinate bits select  *)
(* a quadrant; the quadrant, in the current sense, is the next octal digit *)
(* of the key and determines the next state.  A key is the sequence of its *)
(* octal digits, so that levels up to 21 need no big integers.             *)
(*                                                                         *)
(* The properties are proved here for EVERY level by induction over the    *)
(* states: see Induction below, which TLC evaluates over all 48 states.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* Tables as published with Gadget: quadrant of (rotation, x, y, z)
QuadT ==
    <<0, 7, 1, 6, 3, 4, 2, 5, 7, 4, 6, 5, 0, 3, 1, 2, 4, 3, 5, 2, 7, 0, 6,
      1, 3, 0, 2, 1, 4, 7, 5, 6, 1, 0, 6, 7, 2, 3, 5, 4, 0, 3, 7, 4, 1, 2,
      6, 5, 3, 2, 4, 5, 0, 1, 7, 6, 2, 1, 5, 6, 3, 0, 4, 7, 6, 1, 7, 0, 5,
      2, 4, 3, 1, 2, 0, 3, 6, 5, 7, 4, 2, 5, 3, 4, 1, 6, 0, 7, 5, 6, 4, 7,
      2, 1, 3, 0, 7, 6, 0, 1, 4, 5, 3, 2, 6, 5, 1, 2, 7, 4, 0, 3, 5, 4, 2,
      3, 6, 7, 1, 0, 4, 7, 3, 0, 5, 6, 2, 1, 6, 7, 5, 4, 1, 0, 2, 3, 7, 0,
      4, 3, 6, 1, 5, 2, 0, 1, 3, 2, 7, 6, 4, 5, 1, 6, 2, 5, 0, 7, 3, 4, 2,
      3, 1, 0, 5, 4, 6, 7, 3, 4, 0, 7, 2, 5, 1, 6, 4, 5, 7, 6, 3, 2, 0, 1,
      5, 2, 6, 1, 4, 3, 7, 0>>
RotX ==
    <<4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 3, 17, 18, 19, 16,
      23, 20, 21, 22>>
RotY ==
    <<1, 2, 3, 0, 16, 17, 18, 19, 11, 8, 9, 10, 22, 23, 20, 21, 14, 15, 12,
      13, 4, 5, 6, 7>>
TimesX == <<3, 0, 0, 2, 2, 0, 0, 1>>
TimesY == <<0, 1, 1, 2, 2, 3, 3, 0>>
SenseT == <<-1, -1, -1, 1, 1, -1, -1, -1>>

Quad(rot, bx, by, bz) == QuadT[rot * 8 + bx * 4 + by * 2 + bz + 1]

RECURSIVE Times(_, _, _)
Times(t, n, rot) == IF n = 0 THEN rot ELSE Times(t, n - 1, t[rot + 1])
NextRot(rot, quad) == Times(RotY, TimesY[quad + 1], Times(RotX, TimesX[quad + 1], rot))
NextSense(sense, quad) == sense * SenseT[quad + 1]
Digit(sense, quad) == IF sense = 1 THEN quad ELSE 7 - quad

Bit(x, i) == (x \div (2 ^ i)) % 2

RECURSIVE KeyFrom(_, _, _, _, _, _)
\* digits for the remaining n levels
KeyFrom(x, y, z, n, rot, sense) ==
    IF n = 0 THEN <<>>
    ELSE LET q == Quad(rot, Bit(x, n - 1), Bit(y, n - 1), Bit(z, n - 1))
         IN <<Digit(sense, q)>> \o KeyFrom(x, y, z, n - 1, NextRot(rot, q), NextSense(sense, q))
Key(x, y, z, bits) == KeyFrom(x, y, z, bits, 0, 1)
\* ... as a number
KeyValue(digits) == LET RECURSIVE Go(_, _)
                        Go(i, v) == IF i > Len(digits) THEN v ELSE Go(i + 1, 8 * v + digits[i])
                    IN Go(1, 0)

----------------------------------------------------------------------------
States == (0..23) \X {1, -1}
Corners == (0..1) \X (0..1) \X (0..1)
QuadAt(s, c) == Quad(s[1], c[1], c[2], c[3])
DigitAt(s, c) == Digit(s[2], QuadAt(s, c))
CornerOf(s, d) == CHOOSE c \in Corners : DigitAt(s, c) = d
Child(s, c) == <<NextRot(s[1], QuadAt(s, c)), NextSense(s[2], QuadAt(s, c))>>
\* the corner of the cube at which the curve of state s begins and ends
Entry(s) == CornerOf(s, 0)
Exit(s) == CornerOf(s, 7)

\* cells c and d differ along exactly one axis
DiffAxes(c, d) == {i \in 1..3 : c[i] # d[i]}

Induction ==
    \A s \in States :
      \* bijection at one level, hence at every level
      /\ {DigitAt(s, c) : c \in Corners} = 0..7
      \* the child states are states
      /\ \A c \in Corners : Child(s, c) \in States
      \* the first child begins, and the last child ends, in the corner where the whole does:
      \* so the first (last) cell of the curve at any level is the one in that corner
      /\ Entry(Child(s, Entry(s))) = Entry(s)
      /\ Exit(Child(s, Exit(s))) = Exit(s)
      \* consecutive octants share a face, and the curve leaves the one and enters the next
      \* on the two sides of that face at the same place
      /\ \A d \in 0..6 :
           LET a == CornerOf(s, d)
               b == CornerOf(s, d + 1)
               x == Exit(Child(s, a))
               n == Entry(Child(s, b))
           IN \E i \in 1..3 :
                /\ DiffAxes(a, b) = {i}
                /\ x[i] = b[i] /\ n[i] = a[i]
                /\ \A j \in (1..3) \ {i} : x[j] = n[j]
=============================================================================
