SPECIFICATION Spec
CONSTANTS Observers = {"o1"}
 Stranger = "x"
INVARIANTS OnlyOwn AllOwn Ordered StrangerGetsNothing SetsRefused
