SPECIFICATION Spec
CONSTANTS Observers = {"o1", "o2"}
 Stranger = "x"
INVARIANTS OnlyOwn AllOwn Ordered StrangerGetsNothing SetsRefused
