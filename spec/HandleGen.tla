----------------------------- MODULE HandleGen -----------------------------
(* All short histories of two contour handles.                                *)
EXTENDS Handles, TLC, Json
CONSTANTS Depth
VARIABLE hist
Op(r) == hist' = Append(hist, r)
GInit == hs = << >> /\ hist = <<>>
Next1 == IF 1 \in DOMAIN hs THEN 2 ELSE 1
GNew == \E h \in {1, 2} : h = Next1 /\ h \notin DOMAIN hs /\ New(h, "contour", FALSE, <<>>) /\ Op(<< "new", h >>)
GDestroy == \E h \in DOMAIN hs : Destroy(h) /\ Op(<< "destroy", h >>)
\* setting what is set already says nothing
Differs(h, what, v) == Value(h, what) # v
GSet == \E h \in DOMAIN hs : \E s \in {<< "min", 4 >>, << "max", 6 >>, << "save", 0 >>, << "rule", 8 >>, << "rule", 4 >>, << "min", 0 >>} :
          Differs(h, s[1], s[2]) /\ Set(h, s[1], s[2]) /\ Op(<< s[1], h, s[2] >>)
GProcess == \E h \in DOMAIN hs : (hist = <<>> \/ hist[Len(hist)] # << "process", h >>) /\ UNCHANGED hs /\ Op(<< "process", h >>)
GNext == Len(hist) < Depth /\ (GNew \/ GDestroy \/ GSet \/ GProcess)
GSpec == GInit /\ [][GNext]_<< hs, hist >>
Emit == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
=============================================================================
