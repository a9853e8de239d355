-------------------------------- MODULE Wasm --------------------------------
(* The wrapper around the proof builder: a queue of questions its caller has *)
(* not fetched yet, and the library's builder. What the library makes of a   *)
(* response is an argument here (Builder.tla says what that is).             *)
EXTENDS Integers, Sequences
Dot == 46
Limit == 65535                 \* of the length of a message
\* The name the builder is asked about.
Completed(text) == IF text # <<>> /\ text[Len(text)] = Dot THEN text ELSE Append(text, Dot)
Start(first) == [queue |-> <<first>>, fetched |-> <<>>]
Fetch(w) == IF w.queue = <<>> THEN w ELSE [queue |-> Tail(w.queue), fetched |-> Append(w.fetched, Head(w.queue))]
Fetched(w) == IF w.queue = <<>> THEN <<>> ELSE <<Head(w.queue)>>
\* A response the library takes and answers with further questions; anything else changes nothing.
Respond(w, fits, taken, more) == IF fits /\ taken THEN [w EXCEPT !.queue = @ \o more] ELSE w
=============================================================================
