----------------------------- MODULE MatchTrace -----------------------------
EXTENDS MatchReq, TraceCheck
MFails(e) == IF "exc" \in DOMAIN e THEN {"raised"}
             ELSE MatchFails(e.p, e.r, e.idx, e.d2, e.uniq)
                  \union (IF e.pure THEN {} ELSE {"inputs-modified"})
=============================================================================
