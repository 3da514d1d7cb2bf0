------------------------------- MODULE Files -------------------------------
(* Files: which format a path is read and written in, and what a sequence of *)
(* writes and reads leaves on disk.  The disk is a sequence of [p, c]: path  *)
(* and content (text as code points), in order of creation.                  *)
EXTENDS Formats

F_json == <<106, 115, 111, 110>>
F_yaml == <<121, 97, 109, 108>>
F_xml  == <<120, 109, 108>>
F_csv  == <<99, 115, 118>>
F_st   == <<115, 116, 114, 117, 99, 116, 117, 114, 101, 100, 116, 101, 120, 116>>
F_url  == <<117, 114, 108, 101, 110, 99, 111, 100, 101, 100>>
App == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47>>
Ext(e) == <<46>> \o e
(* names a format answers to *)
Known ==
  << <<F_json, "json">>, <<App \o F_json, "json">>, <<Ext(F_json), "json">>,
     <<F_yaml, "yaml">>, <<App \o <<120, 45>> \o F_yaml, "yaml">>, <<Ext(F_yaml), "yaml">>, <<Ext(<<121, 109, 108>>), "yaml">>,
     <<F_xml, "xml">>, <<App \o F_xml, "xml">>, <<Ext(F_xml), "xml">>,
     <<F_csv, "csv">>, <<App \o F_csv, "csv">>, <<Ext(F_csv), "csv">>,
     <<F_st, "structuredtext">>, <<<<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>, "structuredtext">>,
     <<F_url, "urlencoded">>,
     <<App \o <<120, 45, 119, 119, 119, 45, 102, 111, 114, 109, 45>> \o F_url, "urlencoded">> >>
FormatNamed(n) == LET S == {i \in DOMAIN Known : Known[i][1] = n}
            IN IF S = {} THEN "unknown" ELSE Known[CHOOSE i \in S : TRUE][2]

RECURSIVE LastOf(_, _, _)         \* last position holding ch, at or before i
LastOf(s, i, ch) == IF i = 0 THEN 0 ELSE IF s[i] = ch THEN i ELSE LastOf(s, i - 1, ch)
(* the extension: from the last dot of the last component, unless only dots *)
(* precede it there                                                          *)
ExtOf(path) ==
  LET sep == LastOf(path, Len(path), 47)
      dot == LastOf(path, Len(path), 46)
  IN IF dot <= sep \/ \A k \in (sep + 1)..(dot - 1) : path[k] = 46 THEN <<>>
     ELSE SubSeq(path, dot, Len(path))
(* explicit: <<>>, <<name>> or the class asked for by name in cls            *)
Chosen(st) ==
  IF st.explicit # <<>> THEN FormatNamed(st.explicit[1])
  ELSE IF st.cls # "" THEN st.cls
  ELSE LET e == LowerAll(ExtOf(st.path)) IN IF e = <<>> THEN "unknown" ELSE FormatNamed(e)

OnDisk(disk, p) == LET S == {i \in DOMAIN disk : disk[i].p = p}
                   IN IF S = {} THEN <<>> ELSE <<disk[CHOOSE i \in S : TRUE].c>>
Put(disk, p, c) == IF OnDisk(disk, p) = <<>> THEN Append(disk, [p |-> p, c |-> c])
                   ELSE [i \in DOMAIN disk |-> IF disk[i].p = p THEN [p |-> p, c |-> c] ELSE disk[i]]
SameDisk(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : OnDisk(b, a[i].p) = <<a[i].c>>

(* one step: st.after is the disk observed afterwards *)
Touched(disk, st) ==              \* the disk a successful write may leave: only its own file differs
  LET c == OnDisk(st.after, st.path)
  IN c # <<>> /\ SameDisk(Put(disk, st.path, c[1]), st.after)
WriteStep(disk, st) ==
  LET x == IF st.schema = 0 THEN [r |-> "ok", v |-> st.v] ELSE Process(st.cx, st.f, st.v, "out", TRUE, FALSE)
      fmt == Chosen(st)
      must == x.r = "ok" /\ fmt # "unknown" /\ st.place = 1
  IN IF st.out.r # "ok"
     THEN Clause(SameDisk(disk, st.after), "failed-write-changed-a-file")
          \cup Clause(~(must /\ st.dom = 1), "write-refused " \o st.out.x)
          \cup (IF x.r # "ok" THEN Judge(x, st.out)
                ELSE Clause(fmt # "unknown" \/ st.out.x = "ValueError", "unknown-format-not-refused " \o st.out.x))
     ELSE Clause(must, "wrote-what-must-be-refused")
          \cup Clause(Touched(disk, st), "wrote-elsewhere")
          \cup (IF ~must \/ st.dom = 0 THEN {}
                ELSE Clause(Holds(st.cx, st.f, fmt, OnDisk(st.after, st.path)[1], st.doc, x.v, <<>>),
                            "file-content " \o fmt))
(* made: the format each file was last written in; a file is only claimed   *)
(* to read as a value in that format, or in one which tells its own text     *)
ReadStep(disk, made, st) ==
  LET c == OnDisk(disk, st.path)
      fmt == Chosen(st)
      d == IF c = <<>> \/ (fmt \notin {"json", "yaml"} /\ OnDisk(made, st.path) # <<fmt>>) THEN RBad ELSE DocValue(st.cx, st.f, fmt, c[1], st.doc)
      x == IF ~d.ok THEN [r |-> "none"] ELSE IF st.schema = 0 THEN [r |-> "ok", v |-> d.v]
           ELSE Process(st.cx, st.f, d.v, "in", TRUE, FALSE)
  IN Clause(SameDisk(disk, st.after), "reading-changed-a-file")
     \cup (IF c = <<>>
           THEN IF st.quiet = 1 THEN Clause(st.out.r = "ok" /\ st.out.v = False, "quiet-read-of-missing-file")
                ELSE Clause(st.out.x = "ValueError", "missing-file-not-refused " \o st.out.x)
           ELSE IF fmt = "unknown" THEN Clause(st.out.x = "ValueError", "unknown-format-not-refused " \o st.out.x)
           ELSE IF ~d.ok THEN {}
           ELSE IF x.r # "ok" /\ fmt \in {"csv", "xml"} THEN Clause(st.out.r # "ok", "accepted-invalid-document")
           ELSE IF st.schema = 0 /\ fmt \in {"csv", "xml"}    \* numbers may already be numbers
                THEN LET a == Process(st.cx, st.f, d.v, "in", TRUE, FALSE)
                         b == Process(st.cx, st.f, st.out.v, "in", TRUE, FALSE)
                     IN Clause(a.r = "ok" => (st.out.r = "ok" /\ b.r = "ok" /\ Same(a.v, b.v)), "read-data")
           ELSE IF x.r = "ok" /\ st.out.r # "ok" /\ st.schema = 0 THEN {"read-failed " \o st.out.x}
           ELSE Judge(x, st.out))
     \cup (IF st.exact = <<>> \/ ~Identity(st.cx, st.f, st.exact[1]) THEN {}
           ELSE Clause(st.out.r = "ok" /\ Same(st.exact[1], st.out.v), "not-the-last-written-value"))
RECURSIVE FilesVerdict(_, _, _, _)
FilesVerdict(disk, made, steps, i) ==
  IF i > Len(steps) THEN {}
  ELSE LET st == steps[i]
           bad == IF st.op = "write" THEN WriteStep(disk, st) ELSE ReadStep(disk, made, st)
       IN IF bad # {} THEN bad
          ELSE FilesVerdict(st.after,
                            IF st.op = "write" /\ st.out.r = "ok" THEN Put(made, st.path, IF st.dom = 1 THEN Chosen(st) ELSE "unknown")
                            ELSE made, steps, i + 1)
=============================================================================
