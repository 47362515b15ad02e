-------------------------------- MODULE MC24 --------------------------------
(* Design check of files as names for contents. A file is reached by any of  *)
(* its names (links) or by an open descriptor; writing through one replaces  *)
(* the content, whatever was there; a loaded value is a copy, a mapped one   *)
(* is tied to the content it was loaded from, not to the name.               *)
(* Replace: writing replaces. The flawed variant overwrites in place.        *)
EXTENDS FFFiles
CONSTANTS Names, Inodes, Fds, Values, Replace, MaxOps
VARIABLES dir, data, fd, loaded, mapped, last, n

vars == <<dir, data, fd, loaded, mapped, last, n>>
None == 0
Enc(v) == Tup([k \in 1..v |-> v])                \* every value has its own length
IsFile(b) == \E v \in Values : b = Enc(v)
Dec(b) == CHOOSE v \in Values : b = Enc(v)
Put(old, new) == IF Replace \/ Len(old) <= Len(new) THEN new ELSE new \o SubSeq(old, Len(new) + 1, Len(old))
Free == {i \in Inodes : (\A a \in Names : dir[a] # i) /\ (\A x \in Fds : fd[x] # i) /\ mapped.ino # i}
Nothing == [val |-> None, ino |-> None]

Init == /\ dir = [a \in Names |-> None] /\ data = [i \in Inodes |-> <<>>] /\ fd = [x \in Fds |-> None]
        /\ loaded = None /\ mapped = Nothing /\ last = [want |-> None, got |-> None] /\ n = 0
Tick == n < MaxOps /\ n' = n + 1
\* writing a value under a name: a fresh file, or the one that is there
Write == Tick /\ \E a \in Names, v \in Values :
           \E i \in (IF dir[a] # None THEN {dir[a]} ELSE Free) :
             /\ i # mapped.ino                   \* whoever maps a file must not rewrite it in place
             /\ dir' = [dir EXCEPT ![a] = i]
             /\ data' = [data EXCEPT ![i] = Put(IF dir[a] = None THEN <<>> ELSE @, Enc(v))]
             /\ last' = [want |-> v, got |-> IF IsFile(data'[i]) THEN Dec(data'[i]) ELSE None]
             /\ UNCHANGED <<fd, loaded, mapped>>
Link == Tick /\ \E a, b \in Names : /\ dir[a] # None /\ dir[b] = None
                                    /\ dir' = [dir EXCEPT ![b] = dir[a]]
                                    /\ UNCHANGED <<data, fd, loaded, mapped, last>>
Rename == Tick /\ \E a, b \in Names : /\ a # b /\ dir[a] # None
                                      /\ dir' = [dir EXCEPT ![b] = dir[a], ![a] = None]
                                      /\ UNCHANGED <<data, fd, loaded, mapped, last>>
Unlink == Tick /\ \E a \in Names : /\ dir[a] # None /\ dir' = [dir EXCEPT ![a] = None]
                                   /\ UNCHANGED <<data, fd, loaded, mapped, last>>
Open == Tick /\ \E a \in Names, x \in Fds : /\ dir[a] # None /\ fd[x] = None
                                            /\ fd' = [fd EXCEPT ![x] = dir[a]]
                                            /\ UNCHANGED <<dir, data, loaded, mapped, last>>
\* loading by name, or by descriptor, which uses it up
LoadFrom(i) == /\ IsFile(data[i])
               /\ last' = [want |-> Dec(data[i]), got |-> Dec(data[i])]
               /\ \/ loaded' = Dec(data[i]) /\ mapped' = mapped
                  \/ mapped' = [val |-> Dec(data[i]), ino |-> i] /\ loaded' = loaded
LoadName == Tick /\ \E a \in Names : dir[a] # None /\ LoadFrom(dir[a]) /\ UNCHANGED <<dir, data, fd>>
LoadFd == Tick /\ \E x \in Fds : fd[x] # None /\ LoadFrom(fd[x]) /\ fd' = [fd EXCEPT ![x] = None] /\ UNCHANGED <<dir, data>>
Next == Write \/ Link \/ Rename \/ Unlink \/ Open \/ LoadName \/ LoadFd

\* what was written is what is there
Replaced == last.want = last.got
Whole == \A a \in Names : dir[a] # None => IsFile(data[dir[a]])
\* mapped data stay what they were, whatever happens to the names
MapStays == mapped.ino # None => data[mapped.ino] = Enc(mapped.val)
=============================================================================
