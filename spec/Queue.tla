-------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* The pool of workers behind the parallel operations (utils.StringQ):      *)
(* J jobs in a channel, W workers that take jobs, do them and notify the    *)
(* caller, who returns after J notifications.  Deferred: a worker notifies  *)
(* all its jobs, the last one first, when there is nothing left to take     *)
(* (defer in a loop); otherwise after each job.                             *)
(*                                                                         *)
(* With Track, the state has the schedule so far: the worker that passed    *)
(* each point of the protocol (having taken a job, about to notify, having  *)
(* notified, having nothing to take), or 0: the caller has gone on.         *)
(* Schedules are replayed on the parallel operations of the code.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W, J, Deferred, Track, Emit

VARIABLES left,   \* jobs in the channel
          pc, job, held,
          done,   \* jobs whose work is complete and visible
          chan,   \* notifications not received yet
          got, ret, h
vars == <<left, pc, job, held, done, chan, got, ret, h>>

Jobs == 1..J
Workers == 1..(IF J = 0 THEN 1 ELSE IF J < W THEN J ELSE W)   \* at least one worker
Log(w) == h' = IF Track THEN Append(h, w) ELSE h

Init == /\ left = Jobs /\ done = {} /\ chan = 0 /\ got = 0 /\ ret = FALSE /\ h = <<>>
        /\ pc = [w \in Workers |-> "idle"] /\ job = [w \in Workers |-> 0] /\ held = [w \in Workers |-> <<>>]

Take(w) == /\ pc[w] = "idle" /\ left # {}
           /\ \E k \in (IF Track THEN {CHOOSE x \in left : \A y \in left : x <= y} ELSE left) :
                /\ left' = left \ {k} /\ job' = [job EXCEPT ![w] = k]
           /\ pc' = [pc EXCEPT ![w] = "work"]
           /\ Log(w) /\ UNCHANGED <<held, done, chan, got, ret>>
Work(w) == /\ pc[w] = "work"
           /\ done' = done \cup {job[w]}
           /\ IF Deferred THEN /\ held' = [held EXCEPT ![w] = Append(@, job[w])]
                               /\ pc' = [pc EXCEPT ![w] = "idle"]
              ELSE pc' = [pc EXCEPT ![w] = "send"] /\ UNCHANGED held
           /\ UNCHANGED <<left, job, chan, got, ret, h>>
Send(w) == /\ pc[w] = "send"
           /\ chan' = chan + 1
           /\ pc' = [pc EXCEPT ![w] = "sent"]
           /\ Log(w) /\ UNCHANGED <<left, job, held, done, got, ret>>
Sent(w) == /\ pc[w] = "sent"
           /\ IF ~Deferred THEN pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<job, held>>
              ELSE LET r == SubSeq(held[w], 1, Len(held[w]) - 1) IN
                   /\ held' = [held EXCEPT ![w] = r]
                   /\ IF r = <<>> THEN pc' = [pc EXCEPT ![w] = "gone"] /\ UNCHANGED job
                      ELSE pc' = [pc EXCEPT ![w] = "send"] /\ job' = [job EXCEPT ![w] = r[Len(r)]]
           /\ Log(w) /\ UNCHANGED <<left, done, chan, got, ret>>
Exit(w) == /\ pc[w] = "idle" /\ left = {}
           /\ IF held[w] = <<>> THEN pc' = [pc EXCEPT ![w] = "gone"] /\ UNCHANGED job
              ELSE pc' = [pc EXCEPT ![w] = "send"] /\ job' = [job EXCEPT ![w] = held[w][Len(held[w])]]
           /\ Log(w) /\ UNCHANGED <<left, held, done, chan, got, ret>>
Receive == /\ ~ret /\ got < J /\ chan > 0
           /\ chan' = chan - 1 /\ got' = got + 1
           /\ UNCHANGED <<left, pc, job, held, done, ret, h>>
Return == /\ ~ret /\ got = J      \* the caller closes the channel of notifications
          /\ ret' = TRUE
          /\ Log(0) /\ UNCHANGED <<left, pc, job, held, done, chan, got>>

Over == ret /\ \A w \in Workers : pc[w] = "gone"
\* receiving is not a point that can be scheduled: with Track, it comes first, and so does the work
Inner == (\E w \in Workers : Work(w)) \/ Receive
Next == IF Track /\ ((\E w \in Workers : pc[w] = "work") \/ (chan > 0 /\ got < J /\ ~ret)) THEN Inner
        ELSE /\ (Inner \/ Return \/ \E w \in Workers : Take(w) \/ Send(w) \/ Sent(w) \/ Exit(w))
             /\ (Emit /\ Over' => PrintT(ToJson(h')))
Spec == Init /\ [][Next]_vars
        /\ \A w \in Workers : WF_vars(Take(w)) /\ WF_vars(Work(w)) /\ WF_vars(Send(w)) /\ WF_vars(Sent(w)) /\ WF_vars(Exit(w))
        /\ WF_vars(Receive) /\ WF_vars(Return)

(* when the caller returns, all the work is done *)
Complete == ret => done = Jobs /\ left = {}
(* nothing is sent after the channel was closed, and sending never blocks *)
NotClosed == /\ \A w \in Workers : pc[w] = "send" => ~ret
             /\ chan <= J /\ got + chan <= J
(* every job is somewhere, once *)
Once == /\ Cardinality(done) >= got + chan
        /\ \A v, w \in Workers : v # w => \A i \in 1..Len(held[v]) : \A k \in 1..Len(held[w]) : held[v][i] # held[w][k]
        /\ \A w \in Workers : pc[w] \in {"work", "send"} => job[w] \in Jobs \ left
(* everything ends *)
Terminates == <>Over
=============================================================================
