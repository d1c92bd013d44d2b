------------------------------ MODULE TraceRun ------------------------------
(* Accepts a trace of drivers/run.cpp: configured runs and what their        *)
(* outputs recorded. The lines of an output are known before the attempts    *)
(* and are consumed by them.                                                 *)
EXTENDS Run, FiniteSets, TLC, SequencesExt, TraceTools
CONSTANT Props
VARIABLES l, s
P25 == "P25" \in Props
P26 == "P26" \in Props
\* printed with 6 or with 16 digits
Near(o, a, b) == RStr(a) = RStr(b) \/ RLe(RAbs(RSub(a, b)), RMul(IF o.file THEN "1/1000000000000000" ELSE "51/10000000", RAbs(b)))
NearAll(o, f, v) == Len(f) = Len(v) /\ \A k \in DOMAIN v : Near(o, f[k], v[k])
Kind(o) == CASE o.type = "con_solution" -> "solution" [] o.type = "con_solution_columnwise" -> "columns" [] o.type = "con_general" -> "log" [] o.type = "stats_full" -> "stats" [] OTHER -> "none"
None == [phase |-> "none", cfg |-> <<>>, t |-> 0, x |-> <<>>, end |-> 0, n |-> 0, outs |-> <<>>, tot |-> NoTotals, told |-> <<>>, again |-> FALSE]
-----------------------------------------------------------------------------
\* elements of the state that are shown: at most half at each end of each group
Group(a, b, half) == IF b - a > 2*half THEN [k \in 1..(2*half) |-> IF k <= half THEN a+k-1 ELSE b-2*half+k-1] ELSE [k \in 1..(b-a) |-> a+k-1]
Shown(cfg, half) == IF cfg.n2 = 0 THEN Group(0, cfg.vars, half) ELSE Group(0, cfg.n2, half) \o Group(cfg.n2, 2*cfg.n2, half) \o Group(2*cfg.n2, cfg.vars, half)
Name(cfg, i) == IF cfg.n2 = 0 \/ i < cfg.n2 THEN "x" \o ToString(i) ELSE IF i < 2*cfg.n2 THEN "v" \o ToString(i - cfg.n2) ELSE "z" \o ToString(i - 2*cfg.n2)
Header(cfg, o) == LET i == Shown(cfg, o.half) IN <<"time">> \o [k \in DOMAIN i |-> Name(cfg, i[k])]
IsWords(o, f) == o.lines # <<>> /\ Head(o.lines).k = "row" /\ Head(o.lines).f = f
Row(cfg, o, t, x) == LET i == Shown(cfg, o.half) IN <<t>> \o [k \in DOMAIN i |-> x[i[k]+1]]
Left(o) == Len(o.lines)
IsRow(o, f) == o.lines # <<>> /\ Head(o.lines).k = "row" /\ NearAll(o, Head(o.lines).f, f)
Bad == [bad |-> TRUE]
\* The output after writing a line
Take(o, t) == [o EXCEPT !.lines = Tail(@), !.st = Recorded(o.st, t)]
\* Before the first step
Open(cfg, o, lines, t, x) ==
    LET w == [role |-> o.role, type |-> o.type, file |-> o.file, half |-> o.half, max |-> o.max, lines |-> lines, total |-> Len(lines), st |-> Begun(Kind(o), o.max, t), cols |-> <<>>, bad |-> FALSE]
    IN CASE Kind(o) = "solution" -> IF IsWords(w, Header(cfg, o)) /\ IsRow([w EXCEPT !.lines = Tail(@)], Row(cfg, o, t, x)) THEN [w EXCEPT !.lines = Tail(Tail(@))] ELSE [w EXCEPT !.bad = TRUE]
         [] Kind(o) = "columns" -> IF o.max = 0 THEN w ELSE [w EXCEPT !.cols = <<[t |-> t, x |-> x]>>]
         [] OTHER -> w
\* whether the record is there: where rounding decides, it is the line that tells
Close(cfg, o, a) == ~cfg.exact /\ Borderline(cfg.timing, o.st.last, a.t, "1/100000000000")
IsStep(o, a, n) == LET y == Head(o.lines)
                   IN /\ o.lines # <<>> /\ y.k = "step" /\ y.n = ToString(n) /\ Near(o, y.t, a.t) /\ Near(o, y.h, a.h) /\ Near(o, y.err, a.err)
                      /\ y.accepted = a.accepted /\ y.changed = a.changed /\ y.truncated = a.truncated /\ y.due = (IF a.truncated THEN a.due ELSE "")
IsIt(o, i) == LET y == Head(o.lines) IN o.lines # <<>> /\ y.k = "it" /\ y.n = ToString(i.n+1) /\ Near(o, y.alpha, i.alpha) /\ y.status = i.status
RECURSIVE Iterations(_, _)
Iterations(o, its) == IF its = <<>> \/ o.bad THEN o ELSE IF IsIt(o, Head(its)) THEN Iterations([o EXCEPT !.lines = Tail(@)], Tail(its)) ELSE [o EXCEPT !.bad = TRUE]
Write(cfg, w, a, n) ==
    LET o == TLCEval(IF Kind(w) = "log" THEN Iterations(w, a.its) ELSE w)
        due == IsDue(Kind(o), o.max, cfg.timing, o.st, a)
        free == Eligible(Kind(o), o.max, o.st, a) /\ ~Forced(Kind(o), o.st, a) /\ Close(cfg, o, a)
        there == IF Kind(o) = "log" THEN IsStep(o, a, n) ELSE IsRow(o, Row(cfg, o, a.t, a.x))
    IN IF Kind(o) = "columns" THEN
            \* what is written comes at the end: all that may be recorded is kept in mind
            IF due \/ free THEN [o EXCEPT !.st = Recorded(@, a.t), !.cols = Append(@, [t |-> a.t, x |-> a.x])] ELSE o
       ELSE IF free THEN IF there THEN Take(o, a.t) ELSE o
       ELSE IF ~due THEN o
       ELSE IF there THEN Take(o, a.t) ELSE [o EXCEPT !.bad = TRUE]
\* After the last step
Pad(cfg, i) == (IF cfg.vars >= 10 /\ i < 10 THEN "0" ELSE "") \o ToString(i)
TableOk(cfg, o, c) ==
    LET row(k) == o.lines[k].f
        is(k, words, v) == o.lines[k].k = "row" /\ Len(row(k)) = Len(words) + Len(v) /\ SubSeq(row(k), 1, Len(words)) = words /\ NearAll(o, SubSeq(row(k), Len(words)+1, Len(row(k))), v)
    IN /\ Len(o.lines) = 2 + cfg.vars
       /\ is(1, <<"index", "name">> \o [k \in DOMAIN c |-> "n" \o ToString(k-1)], <<>>)
       /\ is(2, <<"-1", "time">>, [k \in DOMAIN c |-> c[k].t])
       /\ \A i \in 1..cfg.vars : is(i+2, <<ToString(i-1), "UNNAMED_" \o Pad(cfg, i-1)>>, [k \in DOMAIN c |-> c[k].x[i]])
Stat(o, key, v) == \E k \in DOMAIN o.lines : LET y == o.lines[k] IN y.k = "stat" /\ y.key = key /\ NearAll(o, y.v, v)
Lacks(o, key) == \A k \in DOMAIN o.lines : o.lines[k].k = "stat" => o.lines[k].key # key
Percent(k, n) == RDiv(RMul(100, k), n)
StatsOk(o, tot, e) ==
    /\ Stat(o, "Number of ODE RHS evaluations to refresh Jacobian", <<e.jrhs>>)
    /\ Stat(o, "Total number of ODE RHS evaluations", <<e.rhs, e.rhs - e.jrhs, e.jrhs>>)
    /\ IF e.rhs = 0 THEN Lacks(o, "TIMING: ODE RHS") ELSE Stat(o, "TIMING: ODE RHS", <<e.rhs>>)
    /\ IF e.jrefs = 0 THEN Lacks(o, "TIMING: Jacobian") ELSE Stat(o, "TIMING: Jacobian", <<e.jrefs>>)
    /\ Stat(o, "Total steps", <<tot.steps>>)
    /\ Stat(o, "Rejected steps", <<tot.rejected, Percent(tot.rejected, tot.steps)>>)
    /\ Stat(o, "Step changes", <<tot.changes, Percent(tot.changes, tot.steps)>>)
    /\ Stat(o, "Truncated steps", <<tot.truncated, Percent(tot.truncated, tot.steps)>>)
    /\ tot.steps > tot.rejected => \E k \in DOMAIN o.lines : LET y == o.lines[k] IN y.k = "stat" /\ y.key = "Average step size" /\ Len(y.v) = 1
            /\ LET a == RDiv(tot.sum, tot.steps - tot.rejected) IN RLe(RAbs(RSub(y.v[1], a)), RMul(IF o.file THEN "1/1000000000000" ELSE "52/10000000", RAbs(a)))
    /\ \A k \in DOMAIN o.lines : o.lines[k].k = "stat"
\* the columns may lack records that rounding decides about: then only the shape is checked
Unsure(cfg, o) == ~cfg.exact /\ cfg.timing # "0" /\ \E k \in 1..(Len(o.cols)-1) : Borderline(cfg.timing, o.cols[k].t, o.cols[k+1].t, "1/100000000000")
Ended(cfg, o, tot, e) == CASE Kind(o) = "columns" -> TableOk(cfg, o, o.cols) \/ Unsure(cfg, o)
                          [] Kind(o) = "stats" -> StatsOk(o, tot, e)
                          [] OTHER -> o.lines = <<>>
-----------------------------------------------------------------------------
SameX(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : RStr(a[k]) = RStr(b[k])
Apply(e) ==
    LET c == s.cfg
    IN IF e.thrown THEN IF ApplyRefused(c) THEN [s EXCEPT !.phase = "refused"] ELSE <<>>
       ELSE LET t == IF c.init = "given" THEN c.inittime ELSE e.passedtime
                x == IF c.init = "given" THEN c.initstate ELSE e.passedstate
            IN IF ~ApplyRefused(c) /\ (~P25 \/ (e.wired /\ e.ref /\ RStr(e.t) = RStr(t) /\ SameX(e.x, x) /\ SameX(e.refx, x)))
               THEN [s EXCEPT !.phase = "ready", !.t = t, !.x = x] ELSE <<>>
LinesOf(texts, role) == LET q == SelectSeq(texts, LAMBDA y : y.role = role) IN IF q = <<>> THEN <<>> ELSE q[1].lines
Solve(e) ==
    LET c == s.cfg
    IN IF e.refused # SolveRefused(c) THEN <<>>
       ELSE IF e.refused THEN [s EXCEPT !.phase = "refused", !.told = <<>>]
       ELSE LET w == TLCEval([k \in DOMAIN c.outs |-> Open(c, c.outs[k], LinesOf(e.texts, c.outs[k].role), s.t, s.x)])
            IN IF P26 /\ \E k \in DOMAIN w : w[k].bad THEN <<>>
               ELSE [s EXCEPT !.phase = "running", !.outs = w, !.end = RAdd(s.t, c.duration), !.n = 0, !.again = FALSE, !.tot = NoTotals, !.told = <<>>]
\* a line is written as soon as there is something to write, a table at the end
Prompt(o, out) == ~o.file /\ Kind(o) # "none" => out = (IF Kind(o) \in {"solution", "log"} THEN o.total - Len(o.lines) ELSE 0)
Late == RMul("1/2000000000000000", RAbs(s.end))
\* another attempt: only while the end is not reached (a step may repeat a rejected attempt)
Going == s.n = 0 \/ s.again \/ RLt(s.t, RAdd(s.end, Late))
AtEnd == RGe(s.t, RSub(s.end, Late))
Pre(e) == IF s.phase = "running" /\ (~P25 \/ (Going /\ RStr(e.t) = RStr(s.t))) /\ (~P26 \/ \A k \in DOMAIN s.outs : Prompt(s.outs[k], e.out)) THEN [s EXCEPT !.phase = "attempt"] ELSE <<>>
Att(e) == IF s.phase # "attempt" THEN <<>>
          ELSE LET w == TLCEval([k \in DOMAIN s.outs |-> Write(s.cfg, s.outs[k], e, s.n+1)])
               IN IF P26 /\ \E k \in DOMAIN w : w[k].bad THEN <<>>
                  ELSE [s EXCEPT !.phase = "running", !.n = @+1, !.again = ~e.accepted, !.t = e.t, !.x = e.x, !.outs = w, !.tot = TLCEval(Totals(@, e))]
\* outputs are told of the beginning before the first attempt and of the end after the last
Told(e) == LET q == <<e.role, e.what>>
           IN IF ~P25 THEN s
              ELSE IF s.phase = "running" /\ e.same /\ (\E k \in DOMAIN s.cfg.outs : s.cfg.outs[k].role = e.role /\ s.cfg.outs[k].type = "recorder") /\ ~Contains(s.told, q)
                 /\ (IF e.what = "begin" THEN s.n = 0 /\ RStr(e.t) = RStr(s.t) ELSE AtEnd /\ s.n > 0) THEN [s EXCEPT !.told = Append(@, q)] ELSE <<>>
Done(e) == IF /\ s.phase = "running" /\ s.n > 0
              /\ P25 => /\ AtEnd /\ RStr(e.t) = RStr(s.t) /\ SameX(e.x, s.x) /\ e.same
                        /\ \A k \in DOMAIN s.cfg.outs : s.cfg.outs[k].type = "recorder" => Contains(s.told, <<s.cfg.outs[k].role, "begin">>) /\ Contains(s.told, <<s.cfg.outs[k].role, "over">>)
              /\ P26 => \A k \in DOMAIN s.outs : Ended(s.cfg, s.outs[k], s.tot, e)
           THEN [s EXCEPT !.phase = "ready"] ELSE <<>>
After(e) ==
    CASE e.e \in {"scenario", "end"} -> None
      [] e.e = "config" -> [None EXCEPT !.phase = "config", !.cfg = e]
      [] e.e = "apply" -> IF s.phase \in {"config", "ready", "refused"} THEN Apply(e) ELSE <<>>
      [] e.e = "solve" -> IF s.phase = "ready" THEN Solve(e) ELSE <<>>
      [] e.e = "pre" -> Pre(e)
      [] e.e = "att" -> Att(e)
      [] e.e = "told" -> Told(e)
      [] e.e = "done" -> Done(e)
      [] OTHER -> <<>>
Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ s' = After(Trace[l])
        /\ s' # <<>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
