-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expression trees: what a result is, in terms of named inputs (leaves).  *)
(*                                                                         *)
(* Every leaf has a set of axes; an expression has the union of the axes   *)
(* of its parts less those integrated over, evaluated at or interpolated   *)
(* away, plus those interpolated to.  The trees are data: TLC checks their *)
(* form and exports them; vf/expr.py evaluates them.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

E(op, n, a) == [op |-> op, n |-> n, a |-> a]
L(n) == E("leaf", n, <<>>)              \* input
C(n) == E("num", n, <<>>)               \* decimal number
Mul(s) == E("mul", "", s)
Add(s) == E("add", "", s)
Div(x, y) == E("div", "", <<x, y>>)
Sub(x, y) == E("sub", "", <<x, y>>)
Neg(x) == E("mul", "", <<C("-1"), x>>)
Pow(x, y) == E("pow", "", <<x, y>>)
Ten(x) == Pow(C("10"), x)
Exp(x) == E("exp", "", <<x>>)
Sqrt(x) == E("sqrt", "", <<x>>)
Log10(x) == E("log10", "", <<x>>)
Erf(x) == E("erf", "", <<x>>)
Step(x) == E("step", "", <<x>>)         \* 1 if x >= 0, else 0
Above(x, y) == E("gt", "", <<x, y>>)    \* 1 if x > y, else 0
MaxOf(x, y) == E("max", "", <<x, y>>)
Abs(x) == E("abs", "", <<x>>)
Ln(x) == E("ln", "", <<x>>)
\* the entries idx (numbered from 0) of x along axis ax, as axis new
RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE " " \o ToString(s[1]) \o Words(Tail(s))
Take(ax, new, idx, x) == E("take", ax \o " " \o new \o Words(idx), <<x>>)
MinOf(x, y) == E("min", "", <<x, y>>)
If0(x, y, z) == E("if0", "", <<x, y, z>>)     \* y where x = 0, else z
Sq(x) == Mul(<<x, x>>)
One == C("1")
Zero == E("zero", "", <<>>)
NoVal == E("none", "", <<>>)
Simpson(ax, grid, x) == E("simpson", ax, <<x, grid>>)   \* Simpson's rule along ax with the abscissae grid
Trapz(ax, grid, x) == E("trapz", ax, <<x, grid>>)
\* linear interpolation of x, tabulated at the values of leaf `from` along axis ax, to the values of leaf `to` (axis new);
\* mode "ext" extrapolates, "zero" gives 0 outside, "const" the nearest value
Interp(mode, ax, new, from, to, x) == E("interp", mode \o " " \o ax \o " " \o new, <<x, from, to>>)
At0(ax, x) == E("at0", ax, <<x>>)
SumOver(ax, x) == E("sum", ax, <<x>>)
\* a function of the arguments, applied to each combination of their entries (evaluator: vf)
Fn(name, args) == E("fn", name, args)
Rename(from, to, x) == E("rename", from \o " " \o to, <<x>>)

\* an operation named in words that replaces axis x by the axes yz...: n = "x yz name arguments" (evaluator: vf)
Via(x, ys, words, args) == E("via", x \o " " \o ys \o " " \o words, args)
RECURSIVE UpToBlank(_, _)
UpToBlank(s, j) == IF j > Len(s) \/ SubSeq(s, j, j) = " " THEN {} ELSE {SubSeq(s, j, j)} \cup UpToBlank(s, j + 1)
AxesOfWord(n) == UpToBlank(n, 3)
RECURSIVE AxesIn(_, _), LeavesOf(_), Occur(_, _)
\* split of the n-field of interp/rename: words separated by one blank (axes are single letters)
AxesIn(e, la) ==
   CASE e.op = "leaf" -> la[e.n]
     [] e.op \in {"simpson", "trapz", "at0", "sum"} -> UNION {AxesIn(e.a[i], la) : i \in DOMAIN e.a} \ {e.n}
     [] e.op = "interp" -> (AxesIn(e.a[1], la) \ {SubSeq(e.n, Len(e.n)-2, Len(e.n)-2)})
                           \cup (AxesIn(e.a[2], la) \ {SubSeq(e.n, Len(e.n)-2, Len(e.n)-2)})
                           \cup AxesIn(e.a[3], la)
     [] e.op = "via" -> (UNION {AxesIn(e.a[i], la) : i \in DOMAIN e.a} \ {SubSeq(e.n, 1, 1)}) \cup AxesOfWord(e.n)
     [] e.op = "rename" -> (AxesIn(e.a[1], la) \ {SubSeq(e.n, 1, 1)}) \cup {SubSeq(e.n, 3, 3)}
     [] e.op = "take" -> (AxesIn(e.a[1], la) \ {SubSeq(e.n, 1, 1)}) \cup {SubSeq(e.n, 3, 3)}
     [] OTHER -> UNION {AxesIn(e.a[i], la) : i \in DOMAIN e.a}
LeavesOf(e) == IF e.op = "leaf" THEN {e.n} ELSE UNION {LeavesOf(e.a[i]) : i \in DOMAIN e.a}
Occur(e, x) == IF e = x THEN 1 ELSE FoldSeq(LAMBDA y, n : n + Occur(y, x), 0, e.a)
=============================================================================
