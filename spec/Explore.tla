------------------------------- MODULE Explore -------------------------------
\* Answering a question about a repository by an exploration plan (E01): one go in the daemon, or step by
\* step with the client's model answering the questions that need one; results, skips, failures, the cache.
EXTENDS Common
CONSTANTS Plans,     \* by name: sequences of [id, t, p]: type and parameter (a word, or a reference [ref, acc])
          MaxGen,    \* index generations
          MaxTok,    \* open steps of step-by-step runs
          Answers,   \* what the client's model answers
          Acts
VARIABLES world,     \* content of the sources: changes under the runners' feet
          gen, cache, \* answers by <<generation, question>>
          toks,      \* handed-out step tokens: [stage, plan, gen, results, at]
          act
vars == <<world, gen, cache, toks, act>>
On(a) == a \in Acts
Init == world = 1 /\ gen = 1 /\ cache = EmptyFn /\ toks = <<>> /\ act = [name |-> "Init"]
\* ------------------------------------------------------------------ one exploration
Unmet == [k |-> "unmet", s |-> None]
Str(s) == [k |-> "str", s |-> s]
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o "," \o Join(Tail(l))
List(l) == IF l = <<>> THEN Unmet ELSE [k |-> "list", s |-> "[" \o Join(l) \o "]"]
OutOf(results, id) == LET i == IndexOf(results, LAMBDA r : r.id = id) IN IF i = 0 THEN [k |-> "absent", code |-> None, q |-> None, hits |-> <<>>, topic |-> None, from |-> None] ELSE results[i].out
Value(p, results) ==
  IF p.ref = None THEN Str(p.word)
  ELSE LET o == OutOf(results, p.ref)
           hits == IF o.k = "ok" THEN o.hits ELSE <<>>
       IN CASE p.acc = "first" -> IF Len(hits) >= 1 THEN Str(hits[1]) ELSE Unmet       \* $e.hits[0].path
            [] p.acc = "all" -> IF hits = <<>> THEN Unmet ELSE [List(hits) EXCEPT !.s = "rows" \o @]  \* $e.hits
            [] p.acc = "range" -> List(hits)                                            \* $e.hits[0..1].path
            [] p.acc = "tail" -> List(SubSeq(hits, 2, Len(hits)))                       \* $e.hits[1..5].path
            [] p.acc = "topic" -> IF o.topic # None THEN Str(o.topic) ELSE Unmet        \* $e.topic
            [] OTHER -> Unmet                                                           \* beyond the end, no such field, malformed
Q(e, v) == e.t \o ":" \o v.s
Ok(q, hits, topic, from) == [k |-> "ok", code |-> None, q |-> q, hits |-> hits, topic |-> topic, from |-> from]
Failed(code) == [k |-> "failed", code |-> code, q |-> None, hits |-> <<>>, topic |-> None, from |-> None]
Wd(w) == "w" \o ToString(w)
\* which words the documents talk about
Known(s) == \E x \in {"alpha", "alpha@w1", "alpha@w2", "alpha#w1", "alpha#w2", "text:alpha"} : s = x
\* the outcome of an exploration that runs: an output, or a pause for the client's model
Compute(e, v, w) ==
  CASE e.t \in {"text", "probe"} -> IF v.s = "boom" THEN Failed("runtime-error") ELSE Ok(Q(e, v), IF v.s = "none" THEN <<>> ELSE <<v.s \o "@" \o Wd(w), v.s \o "#" \o Wd(w)>>, None, Wd(w))
    [] e.t = "narrow" -> IF v.k = "list" \/ v.s = "" THEN Failed("invalid-params") ELSE IF Known(v.s) THEN [k |-> "pause", code |-> None, q |-> Q(e, v), hits |-> <<>>, topic |-> v.s, from |-> None] ELSE Ok(Q(e, v), <<>>, v.s, "nothing")
Cacheable(e, o) == e.t # "probe" /\ o.k = "ok"
RECURSIVE Exec(_, _, _, _, _, _)
\* run the plan from its i-th exploration: results, cache, what was computed, where it paused (0: it did not)
Exec(plan, i, results, c, g, ran) ==
  IF i > Len(plan) THEN [results |-> results, cache |-> c, ran |-> ran, at |-> 0, q |-> None, topic |-> None]
  ELSE LET e == plan[i]
           v == Value(e.p, results)
           q == Q(e, v)
           hit == e.t # "probe" /\ <<g, q>> \in DOMAIN c
           o == IF e.t = "nope" THEN [Failed(None) EXCEPT !.k = "unsupported"]
                ELSE IF v.k = "unmet" THEN Failed("prerequisite-empty")
                ELSE IF hit THEN c[<<g, q>>] ELSE Compute(e, v, world)
           runs == e.t # "nope" /\ v.k # "unmet" /\ ~hit
           put == runs /\ o.k # "pause" /\ Cacheable(e, o)
           ran2 == IF runs /\ e.t # "narrow" THEN Append(ran, q) ELSE ran
       IN IF o.k = "pause" THEN [results |-> results, cache |-> c, ran |-> ran2, at |-> i, q |-> q, topic |-> o.topic]
          ELSE Exec(plan, i + 1, Append(results, [id |-> e.id, out |-> o, cached |-> runs = FALSE /\ e.t # "nope" /\ v.k # "unmet"]),
                    IF put THEN Put(c, <<g, q>>, o) ELSE c, g, ran2)
Show(results) == [i \in 1..Len(results) |-> <<results[i].id, results[i].out.k, results[i].out.code, results[i].out.hits, results[i].out.from, results[i].cached>>]
\* ------------------------------------------------------------------ one go
Once(n) == On("Once") /\ (\A i \in 1..Len(Plans[n]) : Plans[n][i].t # "narrow")
  /\ LET x == Exec(Plans[n], 1, <<>>, cache, gen, <<>>)
     IN cache' = x.cache /\ act' = [name |-> "Once", plan |-> Plans[n], res |-> [results |-> Show(x.results), ran |-> x.ran]]
  /\ UNCHANGED <<world, gen, toks>>
\* ------------------------------------------------------------------ step by step
Open == Len(toks) < MaxTok
Tok(stage, n, g, results, at, q, topic) == [stage |-> stage, plan |-> n, gen |-> g, results |-> results, at |-> at, q |-> q, topic |-> topic]
Begin == On("Step") /\ Open /\ toks' = Append(toks, Tok("plan", None, gen, <<>>, 0, None, None)) /\ UNCHANGED <<world, gen, cache>> /\ act' = [name |-> "Begin", res |-> "emit_plan"]
Refuse(a, code) == UNCHANGED <<world, gen, cache, toks>> /\ act' = [a EXCEPT !.res = [next |-> "error", code |-> code]]
\* the outcome of an execution handed back as the next step
Hand(x, n, g, a) == LET next == IF x.at = 0 THEN "emit_bundle" ELSE "emit_narrow"
  IN toks' = Append(toks, Tok(IF x.at = 0 THEN "bundle" ELSE "narrow", n, g, x.results, x.at, x.q, x.topic))
     /\ act' = [a EXCEPT !.res = [next |-> next, results |-> Show(x.results), ask |-> IF x.at = 0 THEN None ELSE Plans[n][x.at].id, ran |-> x.ran]]
     /\ cache' = x.cache /\ UNCHANGED <<world, gen>>
Live(k) == toks[k].stage # "gone"
SendPlan(k, n) == On("Step") /\ LET a == [name |-> "SendPlan", k |-> k, plan |-> Plans[n], res |-> None] IN
  IF toks[k].stage # "plan" THEN Refuse(a, "state-decode")
  ELSE Open /\ Hand(Exec(Plans[n], 1, <<>>, cache, toks[k].gen, <<>>), n, toks[k].gen, a)
BadPlan(k, why) == On("Step") /\ LET a == [name |-> "BadPlan", k |-> k, why |-> why, res |-> None] IN Refuse(a, IF toks[k].stage = "plan" THEN "plan-schema" ELSE "state-decode")
Answer(k, d) == On("Step") /\ LET a == [name |-> "Answer", k |-> k, d |-> d, res |-> None]
                                  t == toks[k] IN
  IF t.stage # "narrow" THEN Refuse(a, "state-decode")
  ELSE IF d = "wrong" THEN Refuse(a, "wrong-exploration")
  ELSE IF d = "bad" THEN Refuse(a, "narrow-finalize")
  ELSE Open /\ LET e == Plans[t.plan][t.at]
                   o == Ok(t.q, <<>>, t.topic, d)
               IN Hand(Exec(Plans[t.plan], t.at + 1, Append(t.results, [id |-> e.id, out |-> o, cached |-> FALSE]), Put(cache, <<t.gen, t.q>>, o), t.gen, <<>>), t.plan, t.gen, a)
Bundle(k, ok) == On("Bundle") /\ LET a == [name |-> "Bundle", k |-> k, ok |-> ok, res |-> None] IN
  IF toks[k].stage # "bundle" THEN Refuse(a, "state-decode")
  ELSE IF ~ok THEN Refuse(a, "bundle-schema")
  ELSE toks' = [toks EXCEPT ![k].stage = "gone"] /\ UNCHANGED <<world, gen, cache>> /\ act' = [a EXCEPT !.res = [next |-> "done", calls |-> Len(toks[k].results), gen |-> toks[k].gen]]
\* ------------------------------------------------------------------ the surroundings
Edit == On("Edit") /\ world' = 3 - world /\ UNCHANGED <<gen, cache, toks>> /\ act' = [name |-> "Edit", res |-> "ok"]
Reindex == On("Edit") /\ gen < MaxGen /\ gen' = gen + 1 /\ UNCHANGED <<world, cache, toks>> /\ act' = [name |-> "Reindex", res |-> "ok"]
Next == \/ \E n \in Pick(DOMAIN Plans) : Once(n)
        \/ Begin
        \/ \E k \in Pick(1..Len(toks)) : \/ \E n \in Pick(DOMAIN Plans) : SendPlan(k, n)
                                         \/ \E y \in Pick({"twice", "shape"}) : BadPlan(k, y)
                                         \/ \E d \in Pick(Answers) : Answer(k, d)
                                         \/ \E ok \in Pick(BOOLEAN) : Bundle(k, ok)
        \/ Edit \/ Reindex
Spec == Init /\ [][Next]_vars
State == [cache |-> { <<k[1], k[2], cache[k].hits, cache[k].from>> : k \in DOMAIN cache }, toks |-> [k \in 1..Len(toks) |-> IF toks[k].stage = "gone" THEN <<"gone", 0, 0>> ELSE <<toks[k].stage, toks[k].gen, Len(toks[k].results)>>]]
Full == [world |-> world, gen |-> gen, cache |-> cache, toks |-> toks]
-----------------------------------------------------------------------------
W(w) == [ref |-> None, acc |-> None, word |-> w]
R(id, a) == [ref |-> id, acc |-> a, word |-> None]
E3(id, t, p) == [id |-> id, t |-> t, p |-> p]
\* references to results that exist, are empty, failed, come later or not at all; failures in between; probes; the same question twice
OncePlans == [chain |-> <<E3("e1", "text", W("a")), E3("e2", "text", R("e1", "first")), E3("e3", "text", R("e1", "range")), E3("e4", "probe", R("e2", "all"))>>,
              gaps |-> <<E3("e1", "text", W("none")), E3("e2", "text", R("e1", "all")), E3("e3", "text", R("e2", "first")), E3("e4", "text", W("a")), E3("e5", "text", R("e9", "first"))>>,
              fails |-> <<E3("e1", "text", W("boom")), E3("e2", "nope", W("a")), E3("e3", "text", R("e1", "first")), E3("e4", "text", R("e2", "all")), E3("e5", "text", W("a")), E3("e6", "text", R("e5", "tail"))>>,
              odd |-> <<E3("e1", "text", R("e2", "first")), E3("e2", "text", W("a")), E3("e3", "probe", W("a")), E3("e4", "text", R("e3", "first")), E3("e5", "text", R("e2", "beyond")), E3("e6", "text", R("e2", "nofield")), E3("e7", "text", R("e2", "broken"))>>]
StepPlans == [ask |-> <<E3("e1", "text", W("alpha")), E3("e2", "narrow", R("e1", "first")), E3("e3", "text", R("e2", "topic"))>>,
              two |-> <<E3("e1", "narrow", W("alpha")), E3("e2", "probe", W("a")), E3("e3", "narrow", R("e2", "first")), E3("e4", "narrow", R("e1", "topic"))>>,
              bad |-> <<E3("e1", "narrow", W("")), E3("e2", "text", W("boom")), E3("e3", "narrow", R("e2", "topic")), E3("e4", "text", W("a"))>>]
SimPlans == OncePlans @@ StepPlans @@ [mix |-> <<E3("e1", "text", W("alpha")), E3("e2", "narrow", R("e1", "all")), E3("e3", "narrow", R("e1", "first")), E3("e4", "text", R("e3", "topic")), E3("e5", "narrow", W("alpha")), E3("e6", "probe", R("e4", "range"))>>]
-----------------------------------------------------------------------------
\* one result per exploration in plan order, up to where a run paused
Ordered(n, rs) == \A i \in 1..Len(rs) : rs[i].id = Plans[n][i].id
InOrder == \A k \in 1..Len(toks) : (toks[k].plan # None => Ordered(toks[k].plan, toks[k].results)) /\ (toks[k].stage = "bundle" => Len(toks[k].results) = Len(Plans[toks[k].plan]))
NoProbe == \A k \in DOMAIN cache : cache[k].k = "ok" /\ SubSeq(cache[k].q, 1, 5) # "probe"
\* an answer once given stays until the model is asked again under the same step
Sticky == [][\A k \in DOMAIN cache : (k \in DOMAIN cache' /\ cache'[k] # cache[k]) => act'.name = "Answer"]_vars
=============================================================================
