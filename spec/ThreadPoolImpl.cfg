SPECIFICATION Spec
CONSTANTS Tasks = {t1, t2, t3}
          Workers = {w1, w2}
          MaxDeps = 2
PROPERTIES Refines EventuallyRun EventuallyDown
INVARIANTS DepsRespected NothingAbandoned NotLost
