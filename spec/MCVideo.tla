-------------------------------- MODULE MCVideo ---------------------------------
(* Every interleaving of reading, leaving the loop, coming back and writing.         *)
EXTENDS Video
CONSTANTS MaxSrc, MaxOut
VARIABLES src, v, got, disk, inloop
vars == <<src, v, got, disk, inloop>>
Init == /\ src \in UNION {[1..n -> 1..n] : n \in 0..MaxSrc} /\ (\A i \in DOMAIN src : src[i] = i)
        /\ v = VNew /\ got = <<>> /\ disk = <<>> /\ inloop = FALSE
Enter == ~inloop /\ ~v.done /\ inloop' = TRUE /\ UNCHANGED <<src, v, got, disk>>
Leave == inloop /\ inloop' = FALSE /\ UNCHANGED <<src, v, got, disk>>
Read == /\ inloop
        /\ LET id == VNextId(v, src) IN
             /\ got' = IF id = END THEN got ELSE Append(got, id)
             /\ v' = VNext(v, src)
             /\ disk' = IF id = END THEN VFile(v) ELSE disk
             /\ inloop' = (id # END)
        /\ UNCHANGED src
Write == /\ ~v.done /\ Len(v.out) < MaxOut
         /\ \E id \in 1..2, s \in {<<2, 1>>, <<3, 1>>} : v' = VWrite(v, id, s)
         /\ UNCHANGED <<src, got, disk, inloop>>
Next == Enter \/ Leave \/ Read \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Enter) /\ WF_vars(Read) 
Ordered == got = SubSeq(src, 1, Len(got))
Complete == v.done => (got = src /\ disk = v.out /\ ~v.open)
SizeOfFirst == [][v.size # <<>> => v'.size = v.size]_vars
NoLoss == [][Len(v'.out) >= Len(v.out) /\ SubSeq(v'.out, 1, Len(v.out)) = v.out]_vars
=================================================================================
