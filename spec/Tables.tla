---------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* Book-keeping tables (polynomial/book_keeping.go) as a heap of named,     *)
(* independent tables and the operations on them.  Heap is a function from  *)
(* names to tables.  An operation is a record; Result(op) is what it has to  *)
(* return, Effect(op) the heap it has to leave.  Tables that an operation    *)
(* consumes are no longer there afterwards.                                 *)
(***************************************************************************)
EXTENDS Poly

VARIABLE heap

Put(h, n, T) == [x \in DOMAIN h \cup {n} |-> IF x = n THEN T ELSE h[x]]
Drop(h, ns) == [x \in DOMAIN h \ ns |-> h[x]]

\* the table of which the tables named ns are the interleaved chunks
Joined(ns) == Unchunk([i \in 1..Len(ns) |-> heap[ns[i]]])

\* op.op: what is done; op.a, op.b, op.d: names; op.pt, op.s, op.t, op.hp, op.hl, op.hr: arguments
Result(op) ==
    CASE op.op = "eval"   -> <<Eval(heap[op.a], op.pt)>>
      [] op.op = "evallr" -> <<Eval(heap[op.a], op.hl \o op.hp), Eval(heap[op.a], op.hr \o op.hp)>>
      [] op.op = "evals"  -> Delta(heap[op.a])
      [] op.op = "evaleq" -> <<EqEval(op.hl, op.hr)>>
      [] op.op = "evalc"  -> <<Eval(Joined(op.names), op.pt)>>
      [] op.op = "evalmc" -> <<Eval(Joined(op.names), op.hl \o op.hp), Eval(Joined(op.names), op.hr \o op.hp)>>
      [] OTHER            -> <<>>

Effect(op) ==
    CASE op.op = "new"    -> Put(heap, op.d, op.t)
      [] op.op = "eqtab"  -> Put(heap, op.d, EqTable(op.pt))
      [] op.op = "eqchunks" -> [x \in DOMAIN heap \cup RangeOf(op.names) |->
                                  IF x \in RangeOf(op.names)
                                  THEN Chunk(EqTable(op.pt), CHOOSE i \in DOMAIN op.names : op.names[i] = x, Len(op.names))
                                  ELSE heap[x]]
      [] op.op = "fold"   -> Put(heap, op.a, Fold(heap[op.a], op.s))
      [] op.op = "copy"   -> Put(heap, op.d, heap[op.a])
      [] op.op = "chunk"  -> Put(heap, op.d, Chunk(heap[op.a], op.k + 1, op.n))
      [] op.op = "add"    -> Put(heap, op.d, TabAdd(heap[op.a], heap[op.b]))
      [] op.op = "sub"    -> Put(heap, op.d, TabSub(heap[op.a], heap[op.b]))
      [] op.op = "mul"    -> Put(heap, op.d, TabScale(op.s, heap[op.a]))
      [] op.op = "lincomb" -> Put(Drop(heap, {op.a, op.b}), op.d,
                                  TabAdd(TabScale(op.s, heap[op.a]), TabScale(op.t, heap[op.b])))
      [] OTHER            -> heap

Do(op) == heap' = Effect(op)
================================================================================
