--------------------------------- MODULE Opt ---------------------------------
(* An optimisation run.  The parameters go through versions 0, 1, 2, ...; each *)
(* iteration i evaluates the average cost at version i, updates to version     *)
(* i + 1 and samples the histories whose interval divides i.  Everything in    *)
(* the record is identified by the version it was computed from.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)       \* [iters, intervals, problems]
VARIABLES cfg, i, costs, hist, sent, held, done
vars == <<cfg, i, costs, hist, sent, held, done>>
Range(s) == {s[k] : k \in 1..Len(s)}
\* a problem is [sim: has a simulation and a source, has: has a simulation, metrics: the names its metrics function returns]
Probs == Plan.problems[cfg.p]
Sims == {k \in 1..Len(Probs) : Probs[k].sim}
Holders == {k \in 1..Len(Probs) : Probs[k].has}
MetricNames == UNION {Range(Probs[k].metrics) : k \in Sims}
Configs == [n : Range(Plan.iters), m : Range(Plan.intervals), e : Range(Plan.intervals), f : Range(Plan.intervals),
            p : 1..Len(Plan.problems), viz : BOOLEAN, pbar : BOOLEAN]
Init == /\ cfg \in Configs
        /\ i = 0 /\ costs = << >> /\ sent = << >> /\ done = FALSE
        /\ hist = [metric |-> << >>, eps |-> << >>, field |-> << >>]
        /\ held = [k \in 1..Len(Probs) |-> -1]                          \* still its own permittivity
\* every simulation, solved or not, is given the design of version v
Hold(v) == [k \in 1..Len(Probs) |-> IF k \in Holders THEN v ELSE -1]
Due(interval) == interval > 0 /\ i % interval = 0
Sample(h, interval, version) == IF Due(interval) /\ Sims # {} THEN Append(h, <<i, version>>) ELSE h
Iterate == /\ i < cfg.n /\ i' = i + 1 /\ UNCHANGED <<cfg, done>>
           /\ costs' = Append(costs, i)
           /\ hist' = [metric |-> Sample(hist.metric, cfg.m, i), eps |-> Sample(hist.eps, cfg.e, i + 1), field |-> Sample(hist.field, cfg.f, i)]
           /\ sent' = IF cfg.viz THEN Append(sent, Len(costs')) ELSE sent
           /\ held' = Hold(i + 1)
Record == [costs |-> costs, final |-> i, metric |-> IF MetricNames = {} THEN << >> ELSE hist.metric, eps |-> hist.eps, field |-> hist.field,
           names |-> MetricNames]
Finish == /\ i = cfg.n /\ ~done /\ done' = TRUE /\ held' = Hold(i) /\ UNCHANGED <<cfg, i, costs, hist, sent>>
          /\ PrintT("@@" \o ToJson([cfg |-> cfg, rec |-> Record, sent |-> sent, held |-> held']))
Next == Iterate \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Labels(h) == [k \in 1..Len(h) |-> h[k][1]]
Multiples(n, d) == IF d = 0 THEN << >> ELSE [k \in 1..((n + d - 1) \div d) |-> (k - 1) * d]
\* every history is sampled at exactly the multiples of its interval
Sampled == done => /\ costs = [k \in 1..cfg.n |-> k - 1]
                   /\ \A x \in {<<hist.eps, cfg.e>>, <<hist.field, cfg.f>>, <<hist.metric, cfg.m>>} :
                        Labels(x[1]) = IF Sims = {} THEN << >> ELSE Multiples(cfg.n, x[2])
\* costs, fields and metrics belong to the design before the update, permittivities to the one after it
Versions == done => /\ \A k \in 1..Len(hist.field) : hist.field[k][2] = hist.field[k][1]
                    /\ \A k \in 1..Len(hist.metric) : hist.metric[k][2] = hist.metric[k][1]
                    /\ \A k \in 1..Len(hist.eps) : hist.eps[k][2] = hist.eps[k][1] + 1
\* the recorded permittivity is the one the simulation holds; in the end all simulations hold the final design
Final == /\ done => \A k \in Holders : held[k] = cfg.n
         /\ \A k \in Holders : held[k] \in {-1, i}
         /\ Sims \subseteq Holders
\* the record does not depend on what watches the run
Blind == done => Record = [costs |-> [k \in 1..cfg.n |-> k - 1], final |-> cfg.n,
   metric |-> IF MetricNames = {} \/ Sims = {} THEN << >> ELSE [k \in 1..Len(Multiples(cfg.n, cfg.m)) |-> <<Multiples(cfg.n, cfg.m)[k], Multiples(cfg.n, cfg.m)[k]>>],
   eps |-> IF Sims = {} THEN << >> ELSE [k \in 1..Len(Multiples(cfg.n, cfg.e)) |-> <<Multiples(cfg.n, cfg.e)[k], Multiples(cfg.n, cfg.e)[k] + 1>>],
   field |-> IF Sims = {} THEN << >> ELSE [k \in 1..Len(Multiples(cfg.n, cfg.f)) |-> <<Multiples(cfg.n, cfg.f)[k], Multiples(cfg.n, cfg.f)[k]>>],
   names |-> MetricNames]
=============================================================================
