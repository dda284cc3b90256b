---------------------------- MODULE TrackerTrace ----------------------------
(* Judges recorded executions of the real Tracker (any number of trackers    *)
(* interleaved) against Tracker.tla.  A trace is                             *)
(*   [cfgs |-> sequence of configurations (one per tracker), ev |-> events]  *)
(* cfg.geo is "" (distances given per event as a table) or a metric the spec *)
(* evaluates itself; cfg.nofilt: positions and velocities are  *)
(* compared (the filter is one the specification knows).                     *)
EXTENDS Tracker, TraceBase

EmptyF == [x \in {} |-> 0]
TrkInit(tr) ==
  [trk |-> [i \in 1..Len(tr.cfgs) |->
              [objs |-> EmptyF, cnt |-> 0, ever |-> {}, iids |-> {}, upd |-> 0]],
   gids |-> {}]

OrEmpty(c, s) == IF c THEN {s} ELSE {}

(* partial injections A -> B that are total if possible                      *)
Injections(A, B) ==
  IF Cardinality(A) > Cardinality(B) THEN {EmptyF}
  ELSE {f \in [A -> B] : \A a, b \in A : a # b => f[a] # f[b]}

RangeF(f) == {f[x] : x \in DOMAIN f}

Rel(mot, ps) == IF mot = NONE THEN ps ELSE ToRel(mot, ps)

FieldBad(cfg, k, c, e, o) ==
     OrEmpty(o.lab # e.lab, "lab:" \o c)
  \cup OrEmpty(o.ini # e.ini, "ini:" \o c)
  \cup OrEmpty(o.hit # e.hit, "hit:" \o c)
  \cup OrEmpty(o.reid # e.reid, "reid:" \o c)
  \cup OrEmpty(o.age # e.age, "age:" \o c)
  \cup OrEmpty(o.live # Live(e), "live:" \o c)
  \cup OrEmpty(o.last # e.last, "last:" \o c)
  \cup OrEmpty(o.ld # e.ld, "ld:" \o c)
  \cup (IF cfg.chkpast
        THEN OrEmpty(Len(o.past) # Len(e.past)
                     \/ \E i \in 1..MinI(Len(o.past), Len(e.past)) :
                           o.past[i][1] # e.past[i][1], "past:" \o c)
             \cup OrEmpty(\E i \in 1..MinI(Len(o.past), Len(e.past)) :
                           o.past[i][2] # e.past[i][2], "pastage:" \o c)
        ELSE OrEmpty(Len(o.past) > cfg.npast, "past:" \o c))
  \cup (IF cfg.nofilt
        THEN OrEmpty(e.mot = NONE /\ o.abs # NONE, "absraise:" \o c)
             \cup OrEmpty(e.mot # NONE /\ o.abs # << e.pos >>, "abs:" \o c)
             \cup OrEmpty(o.est # Rel(e.mot, e.pos), "est:" \o c)
             \cup OrEmpty(o.vel # e.vel, "vel:" \o c)
        ELSE {})

TrkStep(tr, st, ev) ==
  LET cfg == tr.cfgs[ev.t]
      me == st.trk[ev.t]
      S == me.objs
      K == DOMAIN S
      kept == TLCEval(KeptKeys(cfg, S))
      conf == TLCEval(ConfKeys(cfg, S))
      init == TLCEval(InitKeys(cfg, S))
      dead == TLCEval(DeadKeys(cfg, S))
      stepped == TLCEval([k \in kept |-> Step(cfg, S[k], ev.mot)])
      nd == Len(ev.dets)
      OK == TLCEval({ev.obs[i].k : i \in 1..Len(ev.obs)})
      O == TLCEval([k \in OK |-> ev.obs[CHOOSE i \in 1..Len(ev.obs) : ev.obs[i].k = k]])
      kidx == TLCEval([k \in K |-> IF \E i \in 1..Len(ev.keys) : ev.keys[i] = k
                           THEN CHOOSE i \in 1..Len(ev.keys) : ev.keys[i] = k
                           ELSE 0])
      newk == TLCEval(OK \ K)
      gone == TLCEval(kept \ OK)
      holds(k, i) == O[k].last = ev.dets[i].u
      cur(k) == \E i \in 1..nd : holds(k, i)
      d(i, k) == IF cfg.geo = ""
                 THEN (IF kidx[k] = 0 THEN BIG ELSE ev.D[i][kidx[k]])
                 ELSE GeoDist(cfg.geo, Rel(ev.mot, ev.dets[i].abs),
                                       Rel(stepped[k].mot, stepped[k].pos))
      rd(a, b) == IF kidx[a] = 0 \/ kidx[b] = 0 THEN BIG ELSE ev.RD[kidx[a]][kidx[b]]
      samed(i, k) == ev.dets[i].lab = S[k].lab
      sameo(a, b) == S[a].lab = S[b].lab
      targets == TLCEval({k \in (conf \cup dead) \cap OK : cur(k)})
      fs == TLCEval(IF cfg.reid THEN Injections(gone \cap init, targets) ELSE {EmptyF})

      \* everything that follows assumes that f explains the absorbed newcomers
      Verdict(f) ==
        LET absorber == TLCEval(RangeF(f))
            M1 == TLCEval({p \in (1..nd) \X (conf \cap OK) :
                      p[2] \notin absorber /\ holds(p[2], p[1])})
            M2 == TLCEval({p \in (1..nd) \X (init \cap OK) : holds(p[2], p[1])}
                  \cup {p \in (1..nd) \X DOMAIN f : holds(f[p[2]], p[1])})
            B == TLCEval({p \in (1..nd) \X newk : holds(p[2], p[1])})
            All == TLCEval(M1 \cup M2 \cup B)
            M3 == TLCEval({<< g, f[g] >> : g \in DOMAIN f})
            det(M, k) == (CHOOSE p \in M : p[2] = k)[1]
            M12 == TLCEval(M1 \cup M2)
            hitk == TLCEval({p[2] : p \in M12})
            afterhit == TLCEval([k \in kept |->
                           IF k \in hitk
                           THEN LET i == det(M12, k)
                                IN Hit(cfg, stepped[k], ev.dets[i], ev.per, d(i, k))
                           ELSE stepped[k]])
            post == TLCEval([k \in kept |->
                       IF k \in absorber
                       THEN Absorb(cfg, stepped[k],
                                   afterhit[CHOOSE g \in DOMAIN f : f[g] = k])
                       ELSE afterhit[k]])
            birthk == TLCEval({p[2] : p \in B})
            births == TLCEval([k \in birthk |-> Born(cfg, ev.dets[det(B, k)], ev.per, ev.mot)])
            keptO == TLCEval(kept \cap OK)
            exp == TLCEval([k \in keptO \cup birthk |->
                      IF k \in birthk THEN births[k] ELSE post[k]])
            NC == TLCEval({k \in hitk : stepped[k].ini /\ ~afterhit[k].ini}
                  \cup {k \in birthk : ~births[k].ini})
            ctx == TLCEval([k \in DOMAIN exp |->
                      IF k \in birthk THEN "birth"
                      ELSE IF k \in absorber THEN "merge"
                      ELSE IF k \in NC THEN "confirm"
                      ELSE IF k \in hitk THEN "hit"
                      ELSE IF ~Alive(stepped[k]) THEN "lost"
                      ELSE "miss"])
            left1 == TLCEval((1..nd) \ {p[1] : p \in M1})
            m2keys == TLCEval({p[2] : p \in M2})
            expnew(k) == k \in NC
            idbad == TLCEval(UNION { LET o == O[k] c == ctx[k] IN
                IF expnew(k)
                THEN OrEmpty(o.id = NONE, "id:" \o c)
                     \cup OrEmpty(o.id # NONE /\ (o.id[1] <= me.cnt
                                   \/ o.id[1] > me.cnt + Cardinality(NC)), "idseq:" \o c)
                     \cup OrEmpty(\E k2 \in DOMAIN exp : k2 # k /\ O[k2].id = o.id, "iddup:" \o c)
                     \cup OrEmpty(o.gid = NONE, "gid:" \o c)
                     \cup OrEmpty(o.gid # NONE /\ (o.gid[1] \in st.gids \/ o.gid[1] <= 0), "giddup:" \o c)
                     \cup OrEmpty(\E k2 \in DOMAIN exp : k2 # k /\ O[k2].gid = o.gid, "giddup:" \o c)
                ELSE IF k \in birthk
                THEN OrEmpty(o.id # NONE, "id:" \o c) \cup OrEmpty(o.gid # NONE, "gid:" \o c)
                ELSE OrEmpty(o.id # S[k].id, "id:" \o c)
                     \cup OrEmpty(o.gid # S[k].gid, "gid:" \o c)
                : k \in DOMAIN exp })
            iidbad == TLCEval(UNION { LET o == O[k] c == ctx[k] IN
                IF k \in birthk
                THEN OrEmpty(o.iid = NONE \/ o.iid \in me.iids
                             \/ \E k2 \in birthk : k2 # k /\ O[k2].iid = o.iid, "iid:" \o c)
                ELSE OrEmpty(o.iid # S[k].iid, "iid:" \o c)
                : k \in DOMAIN exp })
            bad == TLCEval(
              {"det:lost" : i \in {j \in 1..nd : \A p \in All : p[1] # j}}
              \cup {"det:twice" : i \in {j \in 1..nd : Cardinality({p \in All : p[1] = j}) > 1}}
              \cup {"birth:last" : k \in newk \ birthk}
              \cup {"dead:matched" : k \in {x \in kept \cap OK :
                      ~Alive(S[x]) /\ cur(x) /\ x \notin absorber /\ S[x].last # O[x].last}}
              \cup {"drop:late" : k \in (K \ kept) \cap OK}
              \cup {"drop:early" : k \in gone \ DOMAIN f}
              \cup {"drop:matched" : k \in {x \in K \ OK : x \notin DOMAIN f /\ S[x].gh = me.upd}}
              \cup {"drop:back" : k \in newk \cap me.ever}
              \cup OrEmpty(Cardinality(OK) # Len(ev.obs), "dup:object")
              \cup MatchBad("m1", M1, 1..nd, conf, d, cfg.T, samed)
              \cup MatchBad("m2", M2, left1, init, d, cfg.T, samed)
              \cup (IF cfg.reid
                    THEN MatchBad("m3", M3, m2keys,
                                  (conf \ {p[2] : p \in M1}) \cup dead, rd, cfg.RT, sameo)
                    ELSE {})
              \cup UNION {FieldBad(cfg, k, ctx[k], exp[k], O[k]) : k \in DOMAIN exp}
              \cup idbad \cup iidbad
              \cup OrEmpty(ev.total < me.cnt + Cardinality(NC \cap OK)
                           \/ ev.total > me.cnt + Cardinality(NC), "total")
              \cup OrEmpty(ToSet(ev.ret) # {k \in DOMAIN exp : Reported(exp[k])}, "ret")
              \cup OrEmpty(Cardinality(ToSet(ev.ret)) # Len(ev.ret), "retdup")
              \cup OrEmpty(ToSet(ev.act) # {k \in DOMAIN exp : Reported(exp[k])}
                           \/ Cardinality(ToSet(ev.act)) # Len(ev.act), "active")
              \cup OrEmpty(ev.count # Cardinality({k \in DOMAIN exp : Reported(exp[k])}), "count")
              \cup {ev.mut[i] : i \in 1..Len(ev.mut)})
            \* the observed state, completed by what cannot be observed
            touched == hitk \cup absorber \cup birthk
            objs2 == TLCEval([k \in DOMAIN exp |-> LET o == O[k] IN
                        [exp[k] EXCEPT !.id = o.id, !.gid = o.gid, !.iid = o.iid,
                           !.lab = o.lab, !.ini = o.ini, !.hit = o.hit, !.reid = o.reid,
                           !.age = o.age, !.last = o.last, !.ld = o.ld,
                           !.past = IF cfg.chkpast THEN o.past ELSE @,
                           !.pos = IF ~cfg.nofilt THEN @
                                   ELSE IF o.abs # NONE THEN o.abs[1]
                                   ELSE IF exp[k].mot = NONE THEN o.est ELSE @,
                           !.vel = IF cfg.nofilt THEN o.vel ELSE @,
                           !.gh = IF k \in touched THEN me.upd + 1 ELSE @]])
        IN [bad |-> bad, objs |-> objs2, go |-> DOMAIN exp = OK]
      V == TLCEval([f \in fs |-> Verdict(f)])
      best == CHOOSE f \in fs : \A g \in fs : Cardinality(V[f].bad) <= Cardinality(V[g].bad)
      w == V[best]
  IN IF ev.exc # "" THEN [st |-> st, bad |-> {"exc:" \o ev.exc}, go |-> FALSE]
     ELSE [bad |-> w.bad, go |-> w.go,
           st |-> [st EXCEPT
             !.trk[ev.t] = [objs |-> w.objs, cnt |-> ev.total,
                            ever |-> me.ever \cup OK, upd |-> me.upd + 1,
                            iids |-> me.iids \cup {O[k].iid : k \in OK}],
             !.gids = @ \cup {O[k].gid[1] : k \in {x \in OK : O[x].gid # NONE}}]]

=============================================================================
