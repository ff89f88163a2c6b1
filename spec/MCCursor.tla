------------------------------ MODULE MCCursor ------------------------------
EXTENDS Cursor
(* a count byte, a supported type number, bytes that are not UTF-8 *)
Buf1 == << 2, 0, 1, 195, 40 >>
Buf2 == << 1, 255, 4, 0, 2, 97, 0 >>
=============================================================================
