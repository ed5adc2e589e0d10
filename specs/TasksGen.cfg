SPECIFICATION GSpec
CONSTANTS Observers = {"o1", "o2"}
 Stranger = "x"
