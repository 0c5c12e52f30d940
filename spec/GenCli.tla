------------------------------- MODULE GenCli -------------------------------
(***************************************************************************)
(* Command lines.  AllSpec: every configuration of every tool, written in  *)
(* one way; RandSpec: random spellings, orders, repeated options, unusable *)
(* inputs.                                                                 *)
(***************************************************************************)
EXTENDS HidCli, Json, IOUtils, TLC, FiniteSets, Randomization

VARIABLES cfg, fin
vars == <<cfg, fin>>
Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Tok(o, v, s) == [o |-> o, v |-> v, s |-> s]
Fmt(o, v, s) == IF v = "default" THEN <<>> ELSE <<Tok(o, v, s)>>
Flag(o, b, s) == IF b THEN <<Tok(o, "", s)>> ELSE <<>>
\* Positional arguments: the output can only be named after the input.
Pos(tool, in, out) ==
    IF tool = "script" THEN IF out = "none" THEN <<>> ELSE <<Tok("pos", out, 1)>>
    ELSE IF out = "none" THEN IF in = "none" THEN <<>> ELSE <<Tok("pos", in, 1)>>
    ELSE <<Tok("pos", IF in = "none" THEN "-" ELSE in, 1), Tok("pos", out, 1)>>
Ins == {"none", "-", "IN"}
Outs == {"none", "-", "OUT"}
Cfgs == {c \in [tool : Tools, i : Formats \cup {"default"}, o : Formats \cup {"default"}, flag : BOOLEAN, in : Ins, out : Outs, old : BOOLEAN] :
            /\ (c.tool = "script" => c.i = "default" /\ c.in = "none")
            /\ (c.tool = "extractor" => c.o = "default" /\ ~c.flag)
            /\ (c.out # "OUT" => ~c.old)}
Toks(c, s) == Fmt("i", c.i, s) \o Fmt("o", c.o, ((s + 1) % 4) + 1) \o Flag(IF c.tool = "script" THEN "N" ELSE "O", c.flag, (s % 2) + 1) \o Pos(c.tool, c.in, c.out)
Code(c) == Cardinality({k \in {"hex", "code"} : c.i = k}) + (IF c.o = "hex" THEN 1 ELSE IF c.o = "code" THEN 3 ELSE 0) + (IF c.flag THEN 2 ELSE 0) + (IF c.in = "IN" THEN 1 ELSE 0)
Spell(c) == (Code(c) % 4) + 1

AllInit == cfg \in Cfgs /\ fin = FALSE
AllNext == /\ ~fin /\ fin' = TRUE /\ cfg' = cfg
           /\ LET ts == Toks(cfg, Spell(cfg))
              IN  Emit([tool |-> cfg.tool, ts |-> ts, argv |-> Argv(ts), infmt |-> Read(cfg.tool, ts).i, old |-> cfg.old, mal |-> "no"])
AllSpec == AllInit /\ [][AllNext]_vars

\* Whatever the order and the spelling, the configuration is what is read.
Same(x, y) == IF x = "default" THEN y = "binary" ELSE y = x
Reads(c, ts) ==
    LET g == Read(c.tool, ts)
    IN  /\ (c.tool # "script" => Same(c.i, g.i))
        /\ (c.tool # "extractor" => Same(c.o, g.o) /\ g.opt = (c.flag # (c.tool = "script")))
        /\ g.in = (IF c.in = "IN" THEN "IN" ELSE "std")
        /\ g.out = (IF c.out = "OUT" THEN "OUT" ELSE "std")
Orders(ts) == {[k \in 1..Len(ts) |-> ts[p[k]]] : p \in {q \in [1..Len(ts) -> 1..Len(ts)] :
                  \A a, b \in 1..Len(ts) : a # b => q[a] # q[b]}}
InOrder(ts, us) == SelectSeq(us, LAMBDA t : t.o = "pos") = SelectSeq(ts, LAMBDA t : t.o = "pos")
ReadOk == \A s \in 1..4 : LET ts == Toks(cfg, s) IN \A us \in Orders(ts) : InOrder(ts, us) => Reads(cfg, us)

(*--- random ----------------------------------------------------------------------*)
R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
RandFmt(z) == Pick(<<"binary", "hex", "code", "code", "hex">>)
RandOpts(tool) == LET k == R(0..3)
                  IN  [j \in 1..k |-> CASE tool = "extractor" -> Tok("i", RandFmt(j), R(1..4))
                                        [] tool = "script" -> IF R(1..2) = 1 THEN Tok("N", "", R(1..2)) ELSE Tok("o", RandFmt(j), R(1..4))
                                        [] OTHER -> LET w == R(1..3) IN IF w = 1 THEN Tok("O", "", R(1..2)) ELSE Tok(IF w = 2 THEN "i" ELSE "o", RandFmt(j), R(1..4))]
Cut(opts, pos) == LET k == R(0..Len(opts))
                      m == R(0..Len(pos))
                  IN  Pick(<<opts \o pos, pos \o opts, SubSeq(opts, 1, k) \o pos \o SubSeq(opts, k + 1, Len(opts)),
                             SubSeq(opts, 1, k) \o SubSeq(pos, 1, m) \o SubSeq(opts, k + 1, Len(opts)) \o SubSeq(pos, m + 1, Len(pos))>>)
\* argparse takes all positional arguments at their first place: keep them together.
Together(ts) == LET P == {k \in 1..Len(ts) : ts[k].o = "pos"} IN \A a, b \in P : \A c \in a..b : c \in P
Plan(tool) ==
    LET ts0 == Cut(RandOpts(tool), Pos(tool, Pick(<<"none", "-", "IN", "IN">>), Pick(<<"none", "-", "OUT", "OUT">>)))
        ts == IF Together(ts0) THEN ts0 ELSE SelectSeq(ts0, LAMBDA t : t.o # "pos") \o SelectSeq(ts0, LAMBDA t : t.o = "pos")
        mal == IF tool = "script" \/ R(1..5) > 1 THEN Pick(<<"no", "no", "no", "no", "format">>) ELSE Pick(<<"truncated", "token", "reserved", "nofile">>)
        us == IF mal # "format" \/ tool = "extractor" THEN ts ELSE ts \o <<Tok("o", Pick(<<"bin", "Hex", "c", "">>), R(3..4))>>
    IN  [tool |-> tool, ts |-> us, argv |-> Argv(us), infmt |-> Read(tool, us).i, old |-> R(1..2) = 1, mal |-> IF tool = "extractor" /\ mal = "format" THEN "no" ELSE mal]
RandInit == cfg = 0 /\ fin = FALSE
RandNext == /\ ~fin /\ fin' = TRUE /\ cfg' = cfg
            /\ \E p \in {Plan(Pick(<<"converter", "converter", "extractor", "script">>))} : Emit(p)
RandSpec == RandInit /\ [][RandNext]_vars
=============================================================================
