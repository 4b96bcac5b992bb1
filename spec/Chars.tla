-------------------------------- MODULE Chars --------------------------------
(***************************************************************************)
(* Texts are sequences of character codes.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL Ascii ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* The codes of a TLA+ string.
Codes(s) ==
  TLCEval([i \in 1..Len(s) |->
     31 + CHOOSE j \in 1..Len(Ascii) : SubSeq(Ascii, j, j) = SubSeq(s, i, i)])

IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsWordStart(c) == IsAlpha(c) \/ c = 95
IsWordChar(c)  == IsWordStart(c) \/ IsDigit(c)
IsSpace(c) == c \in 9..13 \/ c = 32
=============================================================================
