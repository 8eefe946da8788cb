----------------------------- MODULE Snapshots -----------------------------
(* Profiles as snapshots: an opened profile keeps what was in its file at that moment, whatever
   becomes of the file, of other profiles and of the contexts. kept is the sequence of all profiles
   opened so far; a view is what a profile tells about itself.                                    *)
EXTENDS Integers, Sequences

Opened(kept, view) == Append(kept, [alive |-> TRUE, view |-> view])
Dropped(kept, p)   == [kept EXCEPT ![p].alive = FALSE]
Alive(kept)        == {p \in DOMAIN kept : kept[p].alive}
(* what profile p must tell whenever it is asked *)
Told(kept, p)      == kept[p].view
Same(kept, p, q)   == Told(kept, p) = Told(kept, q)
=============================================================================
