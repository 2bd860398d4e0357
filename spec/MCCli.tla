--------------------------------- MODULE MCCli ----------------------------------
(* What holds of the command for every combination of its arguments over a few  *)
(* files: the guarantees a user relies on, stated apart from how the run works. *)
EXTENDS Cli, Json, IOUtils
CONSTANTS Depth

Given == JsonDeserialize(IOEnv.CLI)  \* cfg: [N, J, base, rates, hzk, fs], toks: <<<<argument>>>>
G0 == Given.cfg
Toks == Given.toks

VARIABLE ix  \* the tokens given, as indices in Toks, in order
Init == ix = <<>>
Next == /\ Len(ix) < Depth
        /\ \E i \in DOMAIN Toks : i > (IF ix = <<>> THEN 0 ELSE ix[Len(ix)]) /\ ix' = Append(ix, i)
Spec == Init /\ [][Next]_ix

ArgsOf(s) == Cat([i \in DOMAIN s |-> Toks[s[i]]])
O == Args(Opt0, ArgsOf(ix), G0)
Runs == O.res = "run"
Got(o) == Passed(o, G0, FALSE)
Plain(o) == [o EXCEPT !.m = <<>>, !.hasm = FALSE, !.r = <<>>, !.hasr = FALSE, !.ts = <<>>, !.te = <<>>, !.n = -1]
Recs(q) == [i \in DOMAIN q.ps |-> q.ps[i].raw]
IsPrefix_(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* the order of the options does not matter, nor where the inputs stand among them, but for -tg
\* after or before -t
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
SameOptions == LET a == Args(Opt0, ArgsOf(Rev(ix)), G0)
                   tg == \E i \in DOMAIN ix : Toks[ix[i]][1].s = "-tg"
                   many == Cardinality({i \in DOMAIN ix : Toks[ix[i]][1].s \in {"-T", "-G", "-S"}}) > 1 \/ Cardinality({i \in DOMAIN ix : Toks[ix[i]][1].s \in {"-t", "-g"}}) > 1
               IN (~tg /\ ~many) => [a EXCEPT !.ins = <<>>] = [O EXCEPT !.ins = <<>>] /\ ToSet(a.ins) = ToSet(O.ins)
\* filters pick from the records read, each by itself; -n takes the first of those
Filters == Runs => LET all == Got(Plain(O))
                       some == Got([O EXCEPT !.n = -1])
                       q == Got(O)
                   IN /\ some.err = all.err
                      /\ Recs(some) = Recs([ps |-> SelectSeq(all.ps, LAMBDA p : Passes(O, G0, p.x))])
                      /\ O.n >= 0 => IsPrefix_(Recs(q), Recs(some)) /\ (Len(q.ps) = O.n \/ (Len(q.ps) < O.n /\ Len(q.ps) = Len(some.ps) /\ q.err = some.err))
\* inputs one after another are inputs on their own, up to the first that fails
Apart == (Runs /\ O.n < 0 /\ Len(O.ins) > 1) =>
           LET h == Got([O EXCEPT !.ins = SubSeq(@, 1, 1)])
               t == Got([O EXCEPT !.ins = Tail(@)])
               q == Got(O)
           IN IF h.err THEN q.err /\ Recs(q) = Recs(h) ELSE q.err = t.err /\ Recs(q) = Recs(h) \o Recs(t)
\* what -b and -o hold, and the exit status
Written == LET r == Run(O, G0, <<>>, FALSE) IN
           /\ ~Runs => r.out = <<>>
           /\ Runs => /\ r.exit = 0 <=> (~Got(O).err /\ \A i \in DOMAIN Got(O).ps : Got(O).ps[i].d.cls = "ok")
                      /\ r.raw = (IF O.o = <<45>> THEN <<>> ELSE Cat(Recs(Got(O))))
\* traces account for the samples passed, no sample twice; gaps lie between neighbours and within the limits
Lists == (Runs /\ ~Got(O).err) =>
           LET ps == Got(O).ps
               tl == Traces(O, G0, ps)
               total == FoldLeft(LAMBDA a, p : a + IntW(p.x.cnt), 0, ps)
               inlist == FoldLeft(LAMBDA a, t : FoldLeft(LAMBDA b, s : b + s.cnt, a, t.segs), 0, tl)
               sids == {ps[i].x.sid : i \in DOMAIN ps}
           IN /\ inlist <= total
              /\ {tl[i].sid : i \in DOMAIN tl} \subseteq sids
              /\ \A s \in sids : (\E i \in DOMAIN ps : ps[i].x.sid = s /\ IntW(ps[i].x.cnt) > 0) => \E i \in DOMAIN tl : tl[i].sid = s
              /\ ~O.ver => Cardinality({tl[i].sid : i \in DOMAIN tl}) = Len(tl)
              /\ \A i \in DOMAIN tl : LET q == GapPairs(O, G0, tl[i]) IN
                   /\ \A j \in DOMAIN q : q[j] < Len(tl[i].segs) /\ Within(O, G0, GapOf(G0, tl[i].segs[q[j]], tl[i].segs[q[j] + 1]))
                   /\ (O.gmin = <<>> /\ O.gmax = <<>>) => Len(q) = Cardinality({k \in 1..(Len(tl[i].segs) - 1) : tl[i].segs[k].hz # 0})
Emit == PrintT("HIST " \o ToJson(ix))
=============================================================================
