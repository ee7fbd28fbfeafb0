-------------------------------- MODULE Layout --------------------------------
(* Text layout of Gerber files and their includes.  A file is a sequence of  *)
(* symbols:                                                                   *)
(*   <<"%",0,0>>, <<"*",0,0>>, <<"NL",0,0>>  percent, star, line break        *)
(*   <<"w", k, part>>     part of the body of command k (k > 0), or of an     *)
(*                        include of file -k (k < 0)                          *)
(* Commands are of kind "p" (inside a %-block) or "w" (outside).  A layout    *)
(* decision [glue, brk, nl] for a command: share the block of the command     *)
(* before; line breaks after "%", inside the body, after "*"; line breaks     *)
(* behind the command.                                                        *)
(* The reader is a stack machine: it recovers the commands of a file, and     *)
(* follows an include to the end of the included file before it goes on.      *)
EXTENDS Integers, Sequences, FiniteSets

W(k, p) == <<"w", k, p>>
Pct == <<"%", 0, 0>>
Star == <<"*", 0, 0>>
NL == <<"NL", 0, 0>>
NLs(n) == [i \in 1..n |-> NL]
\* the printer: the symbols of command k; open: a block is open in front of it
Body(kind, k, d) == (IF kind = "p" /\ d.brk[2] THEN <<W(k, 1), NL, W(k, 2)>> ELSE <<W(k, 1), W(k, 2)>>)
                    \o <<Star>> \o (IF kind = "p" /\ d.brk[3] THEN <<NL>> ELSE <<>>)
Close(open, d) == IF open THEN <<Pct>> \o NLs(d.nl) ELSE <<>>
Put(kind, k, d, open) ==
  IF kind = "p" THEN (IF open /\ d.glue THEN <<>> ELSE Close(open, d) \o <<Pct>> \o (IF d.brk[1] THEN <<NL>> ELSE <<>>)) \o Body(kind, k, d)
  ELSE Close(open, d) \o Body(kind, k, d) \o NLs(d.nl)
Shut(open) == IF open THEN <<Pct, NL>> ELSE <<>>

\* the reader: frames of open files (file, position, in a block), the parts of
\* the current command, the commands so far
Frame(f) == [f |-> f, p |-> 1, blk |-> FALSE]
LInit(main) == [st |-> <<Frame(main)>>, cur |-> <<>>, out |-> <<>>, err |-> "", blks |-> <<>>]
Done(s) == s.st = <<>> \/ s.err # ""
LStep(files, s, limit) ==
  LET n == Len(s.st)
      top == s.st[n]
      s1 == [s EXCEPT !.st[n].p = @ + 1]
  IN IF top.p > Len(files[top.f])
     THEN IF s.cur # <<>> \/ top.blk THEN [s EXCEPT !.err = "unfinished"] ELSE [s EXCEPT !.st = SubSeq(@, 1, n - 1)]
     ELSE LET y == files[top.f][top.p] IN
       CASE y[1] = "NL" -> s1
         [] y[1] = "%"  -> IF s.cur # <<>> THEN [s EXCEPT !.err = "percent"] ELSE [s1 EXCEPT !.st[n].blk = ~@]
         [] y[1] = "*"  ->
              IF s.cur = <<>> THEN s1
              ELSE IF Len(s.cur) # 2 THEN [s EXCEPT !.err = "torn"]
              ELSE IF s.cur[1] > 0 THEN [s1 EXCEPT !.out = Append(@, s.cur[1]), !.blks = Append(@, top.blk), !.cur = <<>>]
              ELSE IF n > limit THEN [s EXCEPT !.err = "nesting"]
              ELSE [s1 EXCEPT !.st = Append(@, Frame(-s.cur[1])), !.cur = <<>>]
         [] OTHER -> IF s.cur # <<>> /\ s.cur[1] # y[2] THEN [s EXCEPT !.err = "mixed"] ELSE [s1 EXCEPT !.cur = Append(@, y[2])]
RECURSIVE LRun(_, _, _)
LRun(files, s, limit) == IF Done(s) THEN s ELSE LRun(files, LStep(files, s, limit), limit)
\* to the next command, or the end
RECURSIVE LNext(_, _, _)
LNext(files, s, limit) ==
  IF Done(s) THEN s
  ELSE LET z == LStep(files, s, limit) IN IF z.out # s.out THEN z ELSE LNext(files, z, limit)

\* what a file with includes means: its text with every include replaced by the meaning of
\* the included file.  items: a command k > 0, or -f; "deep" when an include nests too deep.
Deep == <<0>>
RECURSIVE Flat(_, _, _)
Flat(files, items, depth) ==
  IF items = <<>> THEN <<>>
  ELSE LET h == Head(items)
           rest == Flat(files, Tail(items), depth)
           first == IF h > 0 THEN <<h>> ELSE IF depth = 0 THEN Deep ELSE Flat(files, files[-h], depth - 1)
       IN IF first = Deep \/ rest = Deep THEN Deep ELSE first \o rest
Limit == 10
=============================================================================
