-------------------------------- MODULE MC12 --------------------------------
(* Design check: embeddings as references into a heap of arrays. Lookups     *)
(* return aliases of the matrix, several embeddings share norms and storage, *)
(* mapped ones share pages with a file; arithmetic goes through temporaries. *)
(* Then no query changes any embeddings or file: each still has the value it *)
(* was given (ghost), and a query's answer depends on that value only.       *)
(* InPlace: arithmetic on the looked-up array itself, which TLC refutes.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, NSlot, NFile, InPlace, MaxCells
VARIABLES heap,     \* sequence of array contents
          slot,     \* [sto, nrm]: cells (nrm = 0: none), or <<>>
          inode,    \* file -> cell of its current contents, 0: no file
          fnrm,     \* file -> serialized norms (0: none)
          buf,      \* the program's output buffer: a cell
          res,      \* the last result: a cell (possibly an alias), 0: none
          ghost,    \* slot -> <<sto value, nrm value>> given
          gfile,    \* file -> value written
          answer    \* <<asked value, what was answered>> of the last query
vars == <<heap, slot, inode, fnrm, buf, res, ghost, gfile, answer>>
Slots == 1..NSlot
Files == 1..NFile
\* array values as abstract numbers; every operation is some function of its operands
F(x, y) == (3 * x + y + 1) % 7
NoVal == 0 - 1
ValOf(k) == <<heap[slot[k].sto], IF slot[k].nrm = 0 THEN NoVal ELSE heap[slot[k].nrm]>>

Init == /\ heap = <<0>> /\ buf = 1
        /\ slot = [k \in Slots |-> [sto |-> 0, nrm |-> 0]]
        /\ inode = [f \in Files |-> 0] /\ fnrm = [f \in Files |-> 0]
        /\ res = 0 /\ ghost = [k \in Slots |-> <<NoVal, NoVal>>] /\ gfile = [f \in Files |-> NoVal]
        /\ answer = <<NoVal, NoVal>>
Room(n) == Len(heap) + n <= MaxCells
Live(k) == slot[k].sto # 0

New(k, x, y) == /\ Room(2)
                /\ heap' = heap \o <<x, y>>
                /\ slot' = [slot EXCEPT ![k] = [sto |-> Len(heap) + 1, nrm |-> Len(heap) + 2]]
                /\ ghost' = [ghost EXCEPT ![k] = <<x, y>>]
                /\ UNCHANGED <<inode, fnrm, buf, res, gfile, answer>>
\* the parts of another object, shared
Share(k, j) == /\ Live(j)
               /\ slot' = [slot EXCEPT ![k] = slot[j]]
               /\ ghost' = [ghost EXCEPT ![k] = ghost[j]]
               /\ UNCHANGED <<heap, inode, fnrm, buf, res, gfile, answer>>
SetNorms(k, j) == /\ Live(k)
                  /\ IF j = 0 THEN slot' = [slot EXCEPT ![k].nrm = 0] /\ ghost' = [ghost EXCEPT ![k][2] = NoVal]
                     ELSE /\ Live(j)
                          /\ slot' = [slot EXCEPT ![k].nrm = slot[j].nrm]
                          /\ ghost' = [ghost EXCEPT ![k][2] = ghost[j][2]]
                  /\ UNCHANGED <<heap, inode, fnrm, buf, res, gfile, answer>>
\* known word: the row itself
Look(k) == /\ Live(k) /\ res' = slot[k].sto
           /\ answer' = <<ghost[k][1], heap[slot[k].sto]>>
           /\ UNCHANGED <<heap, slot, inode, fnrm, buf, ghost, gfile>>
LookOut(k) == /\ Live(k)
              /\ heap' = [heap EXCEPT ![buf] = heap[slot[k].sto]]
              /\ res' = buf
              /\ answer' = <<ghost[k][1], heap[slot[k].sto]>>
              /\ UNCHANGED <<slot, inode, fnrm, buf, ghost, gfile>>
\* n-gram sum, analogy, scaled export: arithmetic with a temporary (or on the alias)
Compute(k) == /\ Live(k)
              /\ LET y == IF slot[k].nrm = 0 THEN 0 ELSE heap[slot[k].nrm]
                     g == IF ghost[k][2] = NoVal THEN 0 ELSE ghost[k][2]
                     v == F(heap[slot[k].sto], y)
                 IN /\ IF InPlace THEN heap' = [heap EXCEPT ![slot[k].sto] = v] /\ res' = slot[k].sto
                       ELSE Room(1) /\ heap' = Append(heap, v) /\ res' = Len(heap) + 1
                    /\ answer' = <<F(ghost[k][1], g), v>>
              /\ UNCHANGED <<slot, inode, fnrm, buf, ghost, gfile>>
\* the conversion makes a new matrix and keeps the norms object
Explicit(k, j) == /\ Live(j) /\ Room(1)
                  /\ heap' = Append(heap, heap[slot[j].sto])
                  /\ slot' = [slot EXCEPT ![k] = [sto |-> Len(heap) + 1, nrm |-> slot[j].nrm]]
                  /\ ghost' = [ghost EXCEPT ![k] = ghost[j]]
                  /\ UNCHANGED <<inode, fnrm, buf, res, gfile, answer>>
\* a file is replaced, never overwritten in place
Write(k, f) == /\ Live(k) /\ Room(1)
               /\ heap' = Append(heap, heap[slot[k].sto])
               /\ inode' = [inode EXCEPT ![f] = Len(heap) + 1]
               /\ fnrm' = [fnrm EXCEPT ![f] = IF slot[k].nrm = 0 THEN NoVal ELSE heap[slot[k].nrm]]
               /\ gfile' = [gfile EXCEPT ![f] = ghost[k][1]]
               /\ UNCHANGED <<slot, buf, res, ghost, answer>>
Load(k, f, mm) == /\ inode[f] # 0
                  /\ LET h1 == IF mm THEN heap ELSE Append(heap, heap[inode[f]])
                         h2 == IF fnrm[f] = NoVal THEN h1 ELSE Append(h1, fnrm[f])
                     IN /\ Len(h2) <= MaxCells
                        /\ heap' = h2
                        /\ slot' = [slot EXCEPT ![k] = [sto |-> IF mm THEN inode[f] ELSE Len(h1),
                                                       nrm |-> IF fnrm[f] = NoVal THEN 0 ELSE Len(h2)]]
                  /\ ghost' = [ghost EXCEPT ![k] = <<gfile[f], fnrm[f]>>]
                  /\ UNCHANGED <<inode, fnrm, buf, res, gfile, answer>>
\* the program may do what it likes with its buffer
Scribble(x) == /\ heap' = [heap EXCEPT ![buf] = x]
               /\ UNCHANGED <<slot, inode, fnrm, buf, res, ghost, gfile, answer>>

Next == \/ \E k \in Slots : \/ \E x, y \in Vals : New(k, x, y)
                            \/ \E j \in Slots : Share(k, j) \/ Explicit(k, j)
                            \/ \E j \in 0..NSlot : SetNorms(k, j)
                            \/ Look(k) \/ LookOut(k) \/ Compute(k)
                            \/ \E f \in Files : Write(k, f) \/ Load(k, f, TRUE) \/ Load(k, f, FALSE)
        \/ \E x \in Vals : Scribble(x)
Spec == Init /\ [][Next]_vars

Unchanged_ == \A k \in Slots : Live(k) => ValOf(k) = ghost[k]
FilesKept == \A f \in Files : inode[f] # 0 => heap[inode[f]] = gfile[f]
Repeatable == answer[1] = answer[2]
BufferOwn == \A k \in Slots : slot[k].sto # buf /\ (slot[k].nrm = 0 \/ slot[k].nrm # buf)
Inv == Unchanged_ /\ FilesKept /\ Repeatable /\ BufferOwn
=============================================================================
