------------------------------ MODULE Database ------------------------------
(* The testbed database: per datatype a log of stored entries [key, name, id, *)
(* tag]; key = name in lower case, tag = content.  The last one stored under a *)
(* name or id answers.  Iterations run concurrently to each other and to      *)
(* further insertions.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
Entries(log)      == {log[i] : i \in DOMAIN log}
Keys(log)         == {e.key : e \in Entries(log)}
Ids(log)          == {e.id : e \in Entries(log)}
LastBy(log, P(_)) == LET S == {i \in DOMAIN log : P(log[i])} IN log[CHOOSE i \in S : \A j \in S : j <= i]
ByKey(log, k)     == LastBy(log, LAMBDA e : e.key = k)
ById(log, i)      == LastBy(log, LAMBDA e : e.id = i)
Refs(log)         == {<<i, ById(log, i).name>> : i \in Ids(log)}
\* request by text or number: names win, a text of digits may mean an id
ItemOk(log, r)    == r.key \in Keys(log) \/ (r.num /\ r.id \in Ids(log))
Item(log, r)      == IF r.key \in Keys(log) THEN ByKey(log, r.key) ELSE ById(log, r.id)
\* query by id and / or name: the id decides
QueryOk(log, r)   == IF r.hasid THEN r.id \in Ids(log) ELSE r.hasname /\ r.key \in Keys(log)
Query(log, r)     == IF r.hasid THEN ById(log, r.id) ELSE ByKey(log, r.key)
\* an iteration: position of its start in the log, keys already delivered
IterNew(log)      == [at |-> Len(log), seen |-> {}]
Since(log, at, k) == {e.tag : e \in {ByKey(SubSeq(log, 1, at), k)}} \union {log[i].tag : i \in {j \in DOMAIN log : j > at /\ log[j].key = k}}
IterTags(log, it) == UNION {IF k \in Keys(SubSeq(log, 1, it.at)) THEN {<<k, t>> : t \in Since(log, it.at, k)}
                            ELSE {<<k, log[i].tag>> : i \in {j \in DOMAIN log : log[j].key = k}} : k \in Keys(log) \ it.seen}
IterMayEnd(log, it) == Keys(SubSeq(log, 1, it.at)) \subseteq it.seen
\* opening a database: [path: "default" | "dir" | "file" | "missing", reset, age of the cache in minutes, -1 without]
OpenOk(p)         == p.path # "missing"
Sources(p)        == {"files"} \union (IF p.path = "default" /\ ~p.reset /\ p.age >= 0 /\ p.age < 24 * 60 THEN {"cache"} ELSE {})
=============================================================================
