--------------------------------- MODULE Run --------------------------------
(* Several lines executed one after another.                                *)
EXTENDS Filters
RECURSIVE ExecAll(_, _, _)
ExecAll(m, ls, conv) == IF ls = <<>> THEN m ELSE ExecAll(Exec(m, Head(ls), conv), Tail(ls), conv)
=============================================================================
