----------------------------- MODULE ReplicaMC -----------------------------
(* Exhaustive configuration of Replica: every log of NG transactions out of
   the bodies in KINDS, every way to lay it out in files on two servers, every
   starting point, and every schedule within the bounds of Bound.          *)
EXTENDS Replica
CONSTANTS NG, KINDS, SRCS, MAXBREAK, MAXSAVE, GROW

VARIABLES nb, ns     \* interruptions and saves so far

Perms == LET id == [i \in 1..NG |-> i] IN
         IF NG > 1 THEN {id, [id EXCEPT ![1] = 2, ![2] = 1]} ELSE {id}

MCInit ==
  /\ \E ts \in [1..NG -> KINDS], ss \in [1..NG -> SRCS] :
       groups = Number([i \in 1..NG |-> Group(ss[i], 0, Bodies[ts[i]])])
  /\ \E c1 \in SUBSET (1..(NG - 1)), st \in BOOLEAN, c2 \in SUBSET (1..(NG - 1)), o2 \in Perms :
       /\ st => c1 # {}
       /\ \A i, j \in 1..NG : i < j /\ groups[o2[i]].src = groups[o2[j]].src => o2[i] < o2[j]
       /\ (~Gtid => c2 = {} /\ o2 = [i \in 1..NG |-> i])
       /\ servers = << [order |-> [i \in 1..NG |-> i], cuts |-> c1, stops |-> IF st THEN c1 ELSE {}],
                       [order |-> o2, cuts |-> c2, stops |-> {}] >>
  /\ srv = 1
  /\ nlog \in (IF STRAT = "end" \/ GROW THEN 0..NG ELSE {NG})
  /\ IF Gtid
     THEN /\ from = [set |-> TRUE, i |-> 0,
                     gt |-> IF Maria THEN [s \in Srcs |-> 0] ELSE {}]
          /\ opts = [file |-> 0, pos |-> Start, gt |-> from.gt]
     ELSE \E i \in (IF STRAT = "pos" THEN 0..nlog ELSE {0}) :
          /\ from = [set |-> STRAT = "pos" \/ STRAT = "start", i |-> i, gt |-> {}]
          /\ opts = IF STRAT = "pos"
                    THEN IF i = 0 THEN [file |-> 1, pos |-> Start + 2 * Step, gt |-> {}]
                         ELSE LET lg == LogOf(1, i) IN [file |-> lg[Len(lg)].f, pos |-> lg[Len(lg)].np, gt |-> {}]
                    ELSE [file |-> 0, pos |-> IF STRAT = "start" THEN Start ELSE 0, gt |-> {}]
  /\ tr = FALSE /\ pend = 0 /\ ses = Off /\ queue = <<>> /\ comm = {} /\ done = {}
  /\ saved = [opts |-> opts, comm |-> {}, done |-> {}]
  /\ hist = <<>>
  /\ nb = 0 /\ ns = 0

MCNext ==
  \/ (Connect \/ Deliver \/ Beat \/ Commit \/ Grow) /\ UNCHANGED <<nb, ns>>
  \/ Save /\ ns < MAXSAVE /\ ns' = ns + 1 /\ UNCHANGED nb
  \/ (Drop \/ Crash \/ Failover) /\ nb < MAXBREAK /\ nb' = nb + 1 /\ UNCHANGED ns
=============================================================================
