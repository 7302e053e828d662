--------------------------------- MODULE Spots ---------------------------------
(***************************************************************************)
(* Detection of spots in an image.  Positions are counted in half pixels   *)
(* (pixel i is at 2 i), so that a spot lies on a pixel, between two, or at *)
(* the corner of four.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* response of the smoothed image at d half pixels from a spot
G == <<1000, 939, 779, 570, 368, 210, 105, 47, 18, 6, 2>>
Resp(d) == LET a == IF d < 0 THEN -d ELSE d IN IF a > 10 THEN 0 ELSE G[a + 1]
\* a spot: [x, y, b (brightness)]
Val(S, i, j) == LET RECURSIVE Sum(_)
                    Sum(k) == IF k = 0 THEN 0 ELSE S[k].b * ((Resp(2 * j - S[k].x) * Resp(2 * i - S[k].y)) \div 100) + Sum(k - 1)
                IN Sum(Len(S))
\* what the noise does to equal values: one of four orders over the 2 x 2 pattern of pixels
Tilt(t, i, j) == CASE t = "none" -> 0
                   [] t = "plus" -> IF (i + j) % 2 = 0 THEN 2 ELSE 0
                   [] t = "minus" -> IF (i + j) % 2 = 1 THEN 2 ELSE 0
                   [] OTHER -> (i % 2) * 2 + (j % 2)
=============================================================================
