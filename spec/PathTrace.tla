------------------------------ MODULE PathTrace ------------------------------
(* Observed path operations (P15) and lists (P16).                           *)
EXTENDS Path, Observed
K(k) == Answered /\ Ob.kind = k

Parts == K("parts") => /\ Ob.dir = DirectoryName(Ob.p) /\ Ob.tail = Tail_(Ob.p)
                       /\ Ob.ext = Extension(Ob.p) /\ (Ob.abs = 1 <=> IsAbsolute(Ob.p)) /\ Ob.same = Ob.p
Appended == K("append") => Ob.res = AppendPath(Ob.p, Ob.q) /\ Ob.self = 1 /\ Ob.rhs = Ob.q
(* the laws, for what was observed *)
Joined == (K("append") /\ LastPos(Ob.q, SLASH) = 0 /\ Ob.q # <<>> /\ Ob.p # <<>>) =>
             Tail_(Ob.res) = Ob.q /\ DirectoryName(Ob.res) = Stripped(Ob.p)
SplitAndJoined == (K("join") /\ LastPos(Ob.p, SLASH) # 0) => Squeezed(Ob.res) = Squeezed(Ob.p)

Listed == K("colon") => Ob.list = ColonList(Ob.p)
JoinsBack == K("colon") => Join(Ob.list, COLON) = Ob.p
Environment == K("env") => Ob.list = IF Ob.set = 1 THEN ColonList(Ob.p) ELSE <<>>
==============================================================================
