---------------------------- MODULE ScriptText ----------------------------
(* Texts used by ScriptSpec, as byte sequences. *)
EXTENDS TLC
TxWrong == << 87, 114, 111, 110, 103, 32, 35, 32, 97, 114, 103, 115, 46, 32, 69, 120, 112, 101, 99, 116, 101, 100, 32 >>  \* Wrong # args. Expected 
TxGot == << 44, 32, 103, 111, 116, 32 >>  \* , got 
TxDot == << 46 >>  \* .
TxShould == << 32, 83, 104, 111, 117, 108, 100, 32, 98, 101, 32, 34 >>  \*  Should be "
TxUnhandled == << 85, 110, 104, 97, 110, 100, 108, 101, 100, 32, 101, 120, 99, 101, 112, 116, 105, 111, 110, 46 >>  \* Unhandled exception.
TxInvalid == << 105, 110, 118, 97, 108, 105, 100, 32, 99, 111, 109, 109, 97, 110, 100, 32, 110, 97, 109, 101, 32, 34 >>  \* invalid command name "
TxRO == << 118, 97, 114, 105, 97, 98, 108, 101, 32, 105, 115, 32, 114, 101, 97, 100, 45, 111, 110, 108, 121 >>  \* variable is read-only
TxNull == << 78, 85, 76, 76 >>  \* NULL
TxU1 == << 60, 116, 101, 120, 116, 62, 32, 91, 109, 111, 114, 101, 93 >>  \* <text> [more]
TxZero == << 48 >>  \* 0
TxKs == << 114, 111, 32, 116, 101, 120, 116 >>  \* ro text
TxKc == << 99, 111, 110, 115, 116, 32, 99, 104, 97, 114, 115 >>  \* const chars
TxKi == << 53, 50 >>  \* 52
TxNone == << 110, 111, 110, 101 >>  \* none
TxTcl == << 46, 116, 99, 108 >>  \* .tcl
TxInit == << 105, 110, 105, 116 >>  \* init
TxCouldnt == << 99, 111, 117, 108, 100, 110, 39, 116, 32, 114, 101, 97, 100, 32, 102, 105, 108, 101 >>  \* couldn't read file
NmX == << 120 >>  \* x
NmY == << 121 >>  \* y
NmZed == << 122, 101, 100 >>  \* zed
NmColons == << 58, 58 >>  \* ::
TxRec == << 114, 101, 99 >>  \* rec
TxEcho == << 101, 99, 104, 111 >>  \* echo
TxErr == << 101, 114, 114 >>  \* err
(* what Tcl takes for a boolean *)
BoolTrue == { << 49 >>,
  << 50 >>,
  << 45, 49 >>,
  << 48, 46, 53 >>,
  << 116, 114, 117, 101 >>,
  << 116, 114, 117 >>,
  << 84, 82, 85, 69 >>,
  << 121, 101, 115 >>,
  << 111, 110 >>,
  << 121 >>,
  << 48, 120, 49 >>,
  << 49, 101, 51 >> }  \* 1 2 -1 0.5 true tru TRUE yes on y 0x1 1e3
(* floating texts and the script's text for the same number; anything else is not a number *)
Doubles == (<< 45, 49 >> :> << 45, 49, 46, 48 >>) @@
  (<< 49 >> :> << 49, 46, 48 >>) @@
  (<< 50 >> :> << 50, 46, 48 >>) @@
  (<< 55 >> :> << 55, 46, 48 >>) @@
  (<< 49, 48, 48 >> :> << 49, 48, 48, 46, 48 >>) @@
  (<< 49, 46, 53 >> :> << 49, 46, 53 >>) @@
  (<< 45, 48, 46, 50, 53 >> :> << 45, 48, 46, 50, 53 >>) @@
  (<< 53 >> :> << 53, 46, 48 >>) @@
  (<< 49, 101, 51 >> :> << 49, 48, 48, 48, 46, 48 >>) @@
  (<< 49, 101, 49, 48, 48 >> :> << 49, 101, 43, 49, 48, 48 >>) @@
  (<< 48, 120, 49, 48 >> :> << 49, 54, 46, 48 >>) @@
  (<< 45, 55 >> :> << 45, 55, 46, 48 >>) @@
  (<< 32, 50, 46, 53, 32 >> :> << 50, 46, 53 >>)
DblZero == << 48, 46, 48 >>
(* other ways to write an integer *)
IntAlias == (<< 48, 120, 55, 102 >> :> << 49, 50, 55 >>) @@
  (<< 48, 49, 48 >> :> << 56 >>) @@
  (<< 48, 98, 49, 49 >> :> << 51 >>) @@
  (<< 32, 53, 32 >> :> << 53 >>) @@
  (<< 43, 53 >> :> << 53 >>) @@
  (<< 9, 45, 51 >> :> << 45, 51 >>) @@
  (<< 45, 48 >> :> << 48 >>) @@
  (<< 48, 111, 49, 55 >> :> << 49, 53 >>) @@
  (<< 48, 48 >> :> << 48 >>)
(* largest magnitudes below and above zero *)
Low == ("i8" :> << 49, 50, 56 >>) @@
  ("u8" :> << 48 >>) @@
  ("i16" :> << 51, 50, 55, 54, 56 >>) @@
  ("u16" :> << 48 >>) @@
  ("i32" :> << 50, 49, 52, 55, 52, 56, 51, 54, 52, 56 >>) @@
  ("u32" :> << 48 >>) @@
  ("i64" :> << 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56 >>) @@
  ("u64" :> << 48 >>)
High == ("i8" :> << 49, 50, 55 >>) @@
  ("u8" :> << 50, 53, 53 >>) @@
  ("i16" :> << 51, 50, 55, 54, 55 >>) @@
  ("u16" :> << 54, 53, 53, 51, 53 >>) @@
  ("i32" :> << 50, 49, 52, 55, 52, 56, 51, 54, 52, 55 >>) @@
  ("u32" :> << 52, 50, 57, 52, 57, 54, 55, 50, 57, 53 >>) @@
  ("i64" :> << 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55 >>) @@
  ("u64" :> << 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53 >>)
=============================================================================
