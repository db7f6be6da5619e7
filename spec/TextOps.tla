------------------------------ MODULE TextOps -------------------------------
(* String operations that TLA+ lacks; evaluated by java/TextOps.java.         *)
TypeName(t)      == CHOOSE x \in {} : TRUE   \* tag without namespace, "-" and "_"
LowerCase(t)     == CHOOSE x \in {} : TRUE
StartsWith(t, p) == CHOOSE x \in {} : TRUE
TextContains(t, p)   == CHOOSE x \in {} : TRUE
Words(t)         == CHOOSE x \in {} : TRUE   \* white-space separated words
AfterLast(t, s)  == CHOOSE x \in {} : TRUE   \* text after the last s
BeforeLast(t, s) == CHOOSE x \in {} : TRUE   \* text before it, or all of it
AppendLine(t, path) == CHOOSE x \in {} : TRUE  \* adds the line t to a file; TRUE
=============================================================================
