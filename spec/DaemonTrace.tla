----------------------------- MODULE DaemonTrace ----------------------------
(* C34: what is observed of the original process and of the daemon.         *)
EXTENDS TraceIO
TInit == TraceInit
\* a descriptor as <<number, is /dev/null, opened for reading and writing, usable, and kept by programs it runs>>
Good == /\ ev.status = 0 /\ ev.alive = 1
        /\ ev.leader = 1 /\ ev.newsid = 1 /\ ev.tty = 0
        /\ { ev.fds[i] : i \in 1..Len(ev.fds) } = { <<k, 1, 1>> : k \in 0..2 }
\* the message can be seen only where descriptor 2 was open
Failed == ev.status = 1 /\ ev.alive = 0 /\ (ev.has2 = 1 => ev.msg > 0)
TNext ==
  \/ IsEvent("S")
  \/ IsEvent("daemon") /\ (IF ev.ff = 1 THEN Failed ELSE Good)
  \/ Done
=============================================================================
