---------------------------- MODULE RoundingGen ----------------------------
(* Behaviours of RoundingMachine as commands for the real code: every        *)
(* behaviour of Depth commands over a few operations (breadth first), or     *)
(* random ones over all operations (-simulate).                              *)
EXTENDS RoundingMachine, Records, TLC
CONSTANTS Depth, Few
VARIABLE hist
AllOps == {"neg.i", "pos.i", "add.ii", "add.in", "add.ni", "add.nn", "add.cii", "add.cin", "sub.ii", "sub.in", "sub.ni", "sub.nn", "sub.cii", "sub.cin",
  "mul.ii", "mul.in", "mul.ni", "mul.nn", "mul.cii", "mul.cin", "div.ii", "div.in", "div.ni", "div.nn", "div.cii", "div.cin",
  "abs.i", "square.i", "min.ii", "max.ii", "hull.ii", "intersect.ii", "widen.in", "inv.i", "pow.iz", "width.i", "median.i", "norm.i", "bisect.i",
  "subset.ii", "zero_in.i", "lt.ii", "le.in", "eq.ii", "dparts.ii", "sqrt.i", "root.ik", "fmod.ii", "fmod.in", "fmod.ni", "whole.v",
  "cmpall.ii", "text.i", "recast.i", "pis.v", "conv.id", "convi.id", "conv2.id", "casg.id",
  "exp.i", "log.i", "sin.i", "cos.i", "tan.i", "asin.i", "acos.i", "atan.i", "sinh.i", "cosh.i", "tanh.i", "asinh.i", "acosh.i", "atanh.i"}
Ops    == IF Few THEN {"mul.ii", "median.i", "sqrt.i"} ELSE AllOps
Faults == IF Few THEN {"0", "1"} ELSE {"0", "0", "1", "2", "3"}
Amb    == IF Few THEN {"N", "D"} ELSE Modes
do(s)  == hist' = Append(hist, s)
GInit == /\ mode = "N" /\ live = <<>> /\ ambient = "N" /\ hist = <<>>
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o " " \o Join(Tail(s))
Flush == Len(hist) = Depth /\ EmitStep(Join(hist)) /\ do("") /\ UNCHANGED rvars
GNext == \/ Flush
         \/ /\ Len(hist) < Depth
            /\ \/ \E m \in Amb : SetMode(m) /\ do("A:" \o m)
               \/ \E p \in Pols \ {"nop"} : Enter(p) /\ do("E:" \o p)
               \/ Leave /\ do("L")
               \/ \E p \in Pols \ {"nop"}, o \in Ops, k \in Faults : Protected(k # "0") /\ do("P:" \o p \o ":" \o o \o ":" \o k)
               \/ \E o \in Ops, k \in Faults : Unprotected(k # "0") /\ mode' = (IF Top.pol = "opp" THEN "U" ELSE "N") /\ do("U:" \o Top.pol \o ":" \o o \o ":" \o k)
GSpec == GInit /\ [][GNext]_<<rvars, hist>>
View == hist
=============================================================================
