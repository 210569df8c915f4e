------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The state of the library and its API calls.                             *)
(*                                                                         *)
(* The state of a process is                                               *)
(*   eng.cfg    the configuration: [dir, ext, err, debug]                  *)
(*   eng.funcs  the registered custom functions                            *)
(*   eng.sets   the results of the calls of NewTemplate, in order, with    *)
(*              the files they saw                                         *)
(*   eng.fs     the files, [p, c, kind] each, with p relative to C.root    *)
(*              and kind "file", "bad" (cannot be read) or "dir"           *)
(* and the environment of the process is the case C: C.root is its working *)
(* directory and C.fs its files at the start.  A step "write" of a case    *)
(* changes files between the calls.  In the definitions about loading and  *)
(* rendering, C.fs are the files that are loaded.                          *)
(*                                                                         *)
(* Outcome(C, eng, s) is what the call s may do and After(C, eng, s, o)    *)
(* the state after it when it was observed to do o.  Only the calls that   *)
(* load templates or register functions change the state: the outcome of   *)
(* a rendering call is a function of its arguments (C15, C16).             *)
(***************************************************************************)
EXTENDS Eval

SLASH == 47

-----------------------------------------------------------------------------
(* Paths *)
RECURSIVE Segments(_, _, _)
Segments(p, i, cur) ==
  IF i > Len(p) THEN <<cur>>
  ELSE IF p[i] = SLASH THEN <<cur>> \o Segments(p, i + 1, <<>>)
  ELSE Segments(p, i + 1, Append(cur, p[i]))
RECURSIVE CleanSegs(_, _)
CleanSegs(ss, acc) ==
  IF ss = <<>> THEN acc
  ELSE LET h == Head(ss) IN
    IF h = <<>> \/ h = <<46>> THEN CleanSegs(Tail(ss), acc)
    ELSE IF h = <<46, 46>> THEN CleanSegs(Tail(ss), IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
    ELSE CleanSegs(Tail(ss), Append(acc, h))
\* the clean form of an absolute path
Clean(p) == LET ss == CleanSegs(Segments(p, 1, <<>>), <<>>)
            IN Concat([i \in 1..Len(ss) |-> <<SLASH>> \o ss[i]])
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
TrimSlashL(p) == SubSeq(p, First(LAMBDA i : p[i] # SLASH, 1, Len(p)), Len(p))

\* the absolute path of a template directory: an absolute spelling denotes the
\* directory itself when it is below the working directory of the process,
\* otherwise its leading slash has no meaning
AbsDir(C, dir) ==
  IF dir # <<>> /\ dir[1] = SLASH /\ IsPrefix(C.root, Clean(dir)) THEN Clean(dir)
  ELSE Clean(C.root \o <<SLASH>> \o TrimSlashL(dir))
AbsFile(C, k) == Clean(C.root \o <<SLASH>> \o C.fs[k].p)
BaseName(p) == LET ss == Segments(p, 1, <<>>) IN ss[Len(ss)]

\* the template files: indexes of C.fs
TemplateFiles(C, cfg) ==
  LET d == AbsDir(C, cfg.dir) \o <<SLASH>>
  IN {k \in 1..Len(C.fs) : C.fs[k].kind # "dir" /\ IsPrefix(d, AbsFile(C, k)) /\ IsSuffix(cfg.ext, BaseName(C.fs[k].p))}
NameOf(C, cfg, k) ==
  LET d == AbsDir(C, cfg.dir) \o <<SLASH>>
      p == AbsFile(C, k)
  IN SubSeq(p, Len(d) + 1, Len(p) - Len(cfg.ext))
PathOf(C, cfg, name) == Clean(AbsDir(C, cfg.dir) \o <<SLASH>> \o name \o cfg.ext)
\* the index of the file of a template name, 0 when there is none
FileOf(C, cfg, name) ==
  LET S == {k \in 1..Len(C.fs) : C.fs[k].kind # "dir" /\ AbsFile(C, k) = PathOf(C, cfg, name)}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
DirExists(C, cfg) ==
  LET d == AbsDir(C, cfg.dir)
  IN d = C.root \/ \E k \in 1..Len(C.fs) :
       \/ IsPrefix(d \o <<SLASH>>, AbsFile(C, k))
       \/ C.fs[k].kind = "dir" /\ AbsFile(C, k) = d

TILDE == 126
Expand(name, dir) == IF name # <<>> /\ name[1] = TILDE THEN dir \o <<SLASH>> \o Tail(name) ELSE name
LAYOUTS == B("layouts")
COMPONENTS == B("components")

-----------------------------------------------------------------------------
(* Loading.  Problems(C, cfg) is the set of the faults that NewTemplate may *)
(* report: [paths, lines, has], where the path is one of paths ({} for any), *)
(* the line one of lines ({} for any) and the error contains one of has.    *)
(* A problem with open |-> TRUE means that the result is not specified.     *)

Problem(paths, lines, has) == {[open |-> FALSE, paths |-> paths, lines |-> lines, has |-> has]}
OpenProblem == {[open |-> TRUE, paths |-> {}, lines |-> {}, has |-> {}]}

FileProblem(C, k) ==
  IF C.fs[k].kind = "bad" THEN Problem({AbsFile(C, k)}, {}, {})
  ELSE LET p == Parse(C.fs[k].c) IN
    CASE p.k = "ok" -> {}
      [] p.k = "err" -> Problem({AbsFile(C, k)}, p.lines, {})
      [] OTHER -> OpenProblem

ReserveNames(v) == LET r == Collect(v, "reserve") IN {r[i].name : i \in 1..Len(r)}
SlotNames(v) == LET r == Collect(v, "slot") IN {r[i].name : i \in 1..Len(r)}

\* several uses, or a use inside of the body of an insert, are not specified
OddUse(v) == \/ Len(Collect(v, "use")) > 1
             \/ LET is == Collect(v, "insert")
                IN \E i \in 1..Len(is) : is[i].form # "expr" /\ Collect(is[i].v, "use") # <<>>

UseProblems(C, cfg, k, v) ==
  LET us == Collect(v, "use")
      ins == Collect(v, "insert")
  IN
  IF us = <<>> THEN {}
  ELSE IF OddUse(v) THEN OpenProblem
  ELSE
    LET name == Expand(us[1].name, LAYOUTS)
        j == FileOf(C, cfg, name)
    IN IF j = 0 THEN Problem({AbsFile(C, k), PathOf(C, cfg, name)}, {}, {name, PathOf(C, cfg, name)})
       ELSE IF FileProblem(C, j) # {} THEN FileProblem(C, j)
       ELSE LET lay == Parse(C.fs[j].c).v
                names == ReserveNames(lay)
                bad == {i \in 1..Len(ins) : ins[i].name \notin names}
            IN UNION {Problem({AbsFile(C, k)}, {ins[i].l}, {ins[i].name}) : i \in bad}

ComponentProblems(C, cfg, k, c) ==
  LET name == Expand(c.name, COMPONENTS)
      j == FileOf(C, cfg, name)
      n == Len(c.slots)
      dup == {i \in 1..n : \E h \in 1..n : h # i /\ c.slots[h].name = c.slots[i].name}
  IN
  IF j = 0 THEN Problem({AbsFile(C, k)}, {c.l}, {name})
  ELSE IF FileProblem(C, j) # {} THEN FileProblem(C, j)
  ELSE LET names == SlotNames(Parse(C.fs[j].c).v)
           undef == {i \in 1..n : c.slots[i].name \notin names}
       IN (IF dup = {} THEN {} ELSE Problem({AbsFile(C, k)}, {c.slots[i].l : i \in dup}, {name}))
          \cup UNION {Problem({AbsFile(C, k)}, {c.slots[i].l}, {name}) : i \in undef}

LoadProblems(C, cfg) ==
  IF ~DirExists(C, cfg) THEN Problem({}, {}, {})
  ELSE UNION {
    LET own == FileProblem(C, k) IN
    IF own # {} THEN own
    ELSE LET v == Parse(C.fs[k].c).v
             cs == Collect(v, "comp")
         IN UseProblems(C, cfg, k, v)
            \cup UNION {ComponentProblems(C, cfg, k, cs[i]) : i \in 1..Len(cs)}
    : k \in TemplateFiles(C, cfg)}

\* a layout that uses a layout is reported when templates are loaded or when it is rendered
NestedLayout(C, cfg, k) ==
  LET us == Collect(Parse(C.fs[k].c).v, "use") IN
  us # <<>> /\ LET j == FileOf(C, cfg, Expand(us[1].name, LAYOUTS))
               IN j # 0 /\ Collect(Parse(C.fs[j].c).v, "use") # <<>>

-----------------------------------------------------------------------------
(* Rendering.  The outcome of a call is                                    *)
(*   [r |-> "ok", out]                 one of these outputs                *)
(*   [r |-> "e", lines, has, paths]    an error                            *)
(*   Unspec                                                                   *)

Failure(lines, has, paths) == [r |-> "e", lines |-> lines, has |-> has, paths |-> paths]

Strings(eng, env) == [funcs |-> eng.funcs, where |-> "string", comps |-> EmptyFrame, ins |-> <<>>, leak |-> FALSE,
                      slots |-> <<>>, caller |-> env, data |-> env]

EvalString(eng, src, data) ==
  LET p == Parse(src)
      d == DataEnv(data)
  IN
  IF p.k = "open" THEN Unspec
  ELSE IF p.k = "err" THEN
    IF d.r = "v" THEN Failure(p.lines, <<>>, {}) ELSE Failure({}, <<>>, {})
  ELSE IF d.r = "any" THEN Unspec
  ELSE IF d.r = "e" THEN Failure({}, <<>>, {})
  ELSE LET r == Run(p.v, d.v, Strings(eng, d.v)) IN
    CASE r.r = "ok" -> [r |-> "ok", out |-> r.out]
      [] r.r = "e" -> Failure(r.lines, r.has, {})
      [] OTHER -> Unspec

NOTFOUND == B("not found")

\* the indexes of the other files that a page with these statements needs
FilesOf(C, cfg, v) ==
  LET cs == Collect(v, "comp")
      us == Collect(v, "use")
  IN {FileOf(C, cfg, Expand(cs[i].name, COMPONENTS)) : i \in 1..Len(cs)}
     \cup {FileOf(C, cfg, Expand(us[i].name, LAYOUTS)) : i \in 1..Len(us)}

Render(C, eng, cfg, name, data) ==
  LET k == FileOf(C, cfg, name)
      d == DataEnv(data)
      found == k # 0 /\ k \in TemplateFiles(C, cfg) /\ NameOf(C, cfg, k) = name
      v == Parse(C.fs[k].c).v
  IN
  IF found /\ (C.fs[k].kind = "bad" \/ Parse(C.fs[k].c).k # "ok" \/ OddUse(v)) THEN Unspec
  ELSE IF ~found \/ ReserveNames(v) # {} THEN
    IF d.r = "v" THEN Failure({}, <<NOTFOUND>>, {}) ELSE IF d.r = "e" THEN Failure({}, <<>>, {}) ELSE Unspec
  ELSE IF d.r = "any" THEN Unspec
  ELSE IF d.r = "e" THEN Failure({}, <<>>, {})
  ELSE IF \E j \in FilesOf(C, cfg, v) : j = 0 \/ C.fs[j].kind = "bad" \/ Parse(C.fs[j].c).k # "ok" THEN Unspec
  ELSE IF NestedLayout(C, cfg, k) THEN Failure({}, <<>>, {})
  ELSE
    LET cs == Collect(v, "comp")
        us == Collect(v, "use")
        cnames == {cs[i].name : i \in 1..Len(cs)}
        comps == TLCEval([n \in cnames |-> Parse(C.fs[FileOf(C, cfg, Expand(n, COMPONENTS))].c).v])
        nested == \E n \in cnames : LET s == comps[n] IN Collect(s, "comp") # <<>> \/ Collect(s, "use") # <<>>
                                                         \/ Collect(s, "insert") # <<>>
        G == [Strings(eng, d.v) EXCEPT !.where = "page", !.comps = comps, !.ins = Collect(v, "insert")]
        Result(leak) ==
             IF us = <<>> THEN Run(v, d.v, [G EXCEPT !.leak = leak])
             ELSE LET lay == Parse(C.fs[FileOf(C, cfg, Expand(us[1].name, LAYOUTS))].c).v
                      rs == Collect(lay, "reserve")
                  IN IF Cardinality(ReserveNames(lay)) # Len(rs) THEN Unspec
                     ELSE In("other", Run(lay, d.v, [G EXCEPT !.where = "layout", !.leak = leak]))
        \* whether what the body of an insert or a slot assigns is visible in
        \* the layout or the component after it is not specified
        bodies == LET is == Collect(v, "insert") IN
                  {is[i].v : i \in {j \in 1..Len(is) : is[j].form # "expr"}}
                  \cup UNION {{cs[i].slots[j].v : j \in 1..Len(cs[i].slots)} : i \in 1..Len(cs)}
        r == IF \E b \in bodies : Assigns(b) THEN Agree(Result(FALSE), Result(TRUE)) ELSE Result(FALSE)
    IN IF nested THEN Unspec
       ELSE CASE r.r = "ok" -> [r |-> "ok", out |-> r.out]
              [] r.r = "e" -> IF r.f = "other" THEN Failure({}, r.has, {})
                              ELSE Failure(r.lines, r.has, {AbsFile(C, k)})
              [] OTHER -> Unspec

-----------------------------------------------------------------------------
(* What a response may write *)

\* The texts of the templates of the cases have this word where a part of a
\* page that was written in spite of an error would show it.
MARK == B("MARK")
HTMLEND == B("</html>")
BuiltInPage(C, cfg, s, o) ==
  /\ Contains(o.body, HTMLEND)
  /\ ~Contains(o.body, MARK)
  /\ IF cfg.debug
     THEN /\ Contains(o.body, o.msg) \/ Contains(o.body, Escape(o.msg))
          /\ Contains(o.body, o.path)
          /\ Contains(o.body, NatBytes(o.line))
     ELSE /\ o.msg # <<>> => ~Contains(o.body, o.msg) /\ ~Contains(o.body, Escape(o.msg))
          /\ C.root # <<>> => ~Contains(o.body, C.root)
          /\ o.path # <<>> => ~Contains(o.body, BaseName(o.path))

Has(o, w) == Contains(o.msg, w) \/ Contains(o.path, w)

Lower(s) == TLCEval([i \in 1..Len(s) |-> IF IsUpper(s[i]) THEN s[i] + 32 ELSE s[i]])
\* C.chk says which details of an error the property under test is about
ErrorFits(C, f, o) ==
  /\ ~o.ok
  /\ (C.chk.lines /\ f.lines # {}) => o.line \in f.lines
  /\ (C.chk.paths /\ f.paths # {}) => o.path \in f.paths
  /\ C.chk.has => \A i \in 1..Len(f.has) : Contains(Lower(o.msg), Lower(f.has[i]))

\* numeric character references of the characters that escaping produces
Canon(s) == ReplaceAll(ReplaceAll(ReplaceAll(s, B("&#38;"), AMP), B("&#60;"), LTE), B("&#62;"), GTE)
OutFits(outs, out) ==
  \/ out \in outs
  \/ HasByte(out, 38) /\ Canon(out) \in {Canon(x) : x \in outs}

Fits(C, f, o) ==
  CASE f.r = "any" -> TRUE
    [] f.r = "ok" -> o.ok /\ OutFits(f.out, o.out)
    [] OTHER -> ErrorFits(C, f, o)

-----------------------------------------------------------------------------
(* Tokens.  An observed token is [t, lit, p] where p is its position: the  *)
(* zero-based line and column of its first and last byte.                  *)

Pos(nl, a, b) == <<LineOf(nl, a) - 1, ColOf(nl, a), LineOf(nl, b) - 1, ColOf(nl, b)>>

\* the byte position of a line and column, 0 when there is no such byte
ByteAt(s, nl, line, col) ==
  LET start == IF line = 0 THEN 0 ELSE IF line <= Len(nl) THEN nl[line] ELSE Len(s) + 1
      end == IF line < Len(nl) THEN nl[line + 1] ELSE Len(s) + 1
  IN IF line <= Len(nl) /\ start + col + 1 <= end THEN start + col + 1 ELSE 0

\* The tokens are in order, do not overlap, and leave only whitespace or
\* comments between them; this is asked of every input.
Spans(s, toks) ==
  LET nl == Newlines(s)
  IN [i \in 1..Len(toks) |-> [a |-> ByteAt(s, nl, toks[i].p[1], toks[i].p[2]),
                              b |-> ByteAt(s, nl, toks[i].p[3], toks[i].p[4])]]
GapFrom(s, i0, j) ==     \* s[i0..j] is whitespace and comments
  j + 1 = Iterate(LAMBDA i : IF IsSpace(s[i]) THEN i + 1
                             ELSE IF StartsAt(s, i, W_COMMENT)
                               THEN LET e == FindFrom(s, i + 2, W_ENDCOMMENT) IN IF e = 0 THEN j + 2 ELSE e + 4
                             ELSE j + 2,
                  LAMBDA i : i > j, i0)
Tiling(s, toks) ==
  LET sp == TLCEval(Spans(s, toks))
      n == Len(toks)
  IN /\ n >= 1 /\ toks[n].t = "EOF" /\ toks[n].p = Pos(Newlines(s), Len(s) + 1, Len(s) + 1)
     /\ \A i \in 1..(n - 1) : sp[i].a # 0 /\ sp[i].a <= sp[i].b /\ sp[i].b <= Len(s)
     /\ \A i \in 1..(n - 1) : sp[i].b < sp[i + 1].a
     /\ \A i \in 1..(n - 1) : GapFrom(s, (IF i = 1 THEN 0 ELSE sp[i - 1].b) + 1, sp[i].a - 1)
     /\ \/ GapFrom(s, (IF n = 1 THEN 0 ELSE sp[n - 1].b) + 1, Len(s))
        \/ n > 1 /\ toks[n - 1].t = "ILLEGAL" /\ StartsAt(s, sp[n - 1].a, W_COMMENT)  \* never closed

\* the tokens of the language, up to the first one that makes the input invalid
Exact(s, toks) ==
  LET T == Tokens(s)
      nl == Newlines(s)
      m == ParsedTokens(s)
  IN /\ Len(toks) >= m
     /\ m = Len(T) => Len(toks) = m
     /\ \A i \in 1..m : /\ toks[i].t = T[i].t
                        /\ toks[i].p = Pos(nl, T[i].a, T[i].b)
                        /\ T[i].t \notin {"ILLEGAL", "EOF"} => toks[i].lit = T[i].lit

\* the observed answers to "does the token contain this position", for every
\* byte of the input and the position after it: [t, lit, <<line, col, token, 0>>]
Covers(s, ans) ==
  LET T == Tokens(s)
      nl == Newlines(s)
      m == ParsedTokens(s)
      limit == IF m = Len(T) THEN Len(s) + 1 ELSE T[m].b
      Want == UNION {{<<LineOf(nl, q) - 1, ColOf(nl, q), i, 0>> : q \in T[i].a..T[i].b} : i \in 1..m}
      Got == {ans[i].p : i \in 1..Len(ans)}
  IN /\ Want \subseteq Got
     /\ \A g \in Got : LET q == ByteAt(s, nl, g[1], g[2]) IN (q # 0 /\ q <= limit) => g \in Want

-----------------------------------------------------------------------------
(* The calls.  s.op is the name of the call, o the observation of it:      *)
(*   ok, out, line, path, msg - the result                                 *)
(*   body                     - what a response wrote                      *)
(*   died                     - the call panicked, never returned, was     *)
(*                              reported as a data race, or ended the      *)
(*                              process                                    *)
(*   odd                      - the result was both a value and an error,  *)
(*                              or neither, or an error without a line     *)
(*   same                     - the data of the caller is unchanged        *)
(*   toks                     - tokens                                     *)
(*   par                      - for every call of a concurrent step the    *)
(*                              different observations of it               *)

Conf(eng, opt) ==
  IF ~opt.has THEN eng.cfg
  ELSE [dir |-> IF opt.dir = <<>> THEN eng.cfg.dir ELSE opt.dir,
        ext |-> IF opt.ext = <<>> THEN eng.cfg.ext ELSE opt.ext,
        err |-> IF opt.err = <<>> THEN eng.cfg.err ELSE opt.err,
        debug |-> opt.debug]
Start == [cfg |-> [dir |-> B("templates"), ext |-> B(".tw.html"), err |-> <<>>, debug |-> FALSE],
          funcs |-> <<>>, sets |-> <<>>, fs |-> <<>>]
StartOf(C) == [Start EXCEPT !.fs = C.fs]
\* the case as a call sees it that looks at the files
Now(C, eng) == [C EXCEPT !.fs = eng.fs]
Seen(C, set) == [C EXCEPT !.fs = set.fs]

\* the files after some were written or removed ("gone")
Written(fs, new) ==
  LET Old(k) == \A j \in 1..Len(new) : new[j].p # fs[k].p
  IN SelectSeq([k \in 1..Len(fs) |-> [fs[k] EXCEPT !.kind = IF Old(k) THEN @ ELSE "gone"]], LAMBDA f : f.kind # "gone")
     \o SelectSeq(new, LAMBDA f : f.kind # "gone")

Registered(eng, s) == \E k \in 1..Len(eng.funcs) : eng.funcs[k].ty = s.ty /\ eng.funcs[k].name = s.name

\* Templates are loaded once; whether a render of a set that was loaded before
\* files changed shows the change is not specified.
RenderSet(C, eng, set, name, data) ==
  LET r == Render(Seen(C, set), eng, set.cfg, name, data)
  IN IF set.fs = eng.fs \/ r = Render(Now(C, eng), eng, set.cfg, name, data) THEN r ELSE Unspec

\* the outcome that a rendering call has by its arguments alone
Alone(C, eng, s) ==
  CASE s.op = "evalstr" -> EvalString(eng, s.src, s.data)
    [] s.op = "evalfile" ->
         LET D == Now(C, eng)
             p == IF s.file # <<>> /\ s.file[1] = SLASH THEN Clean(s.file) ELSE Clean(C.root \o <<SLASH>> \o s.file)
             S == {k \in 1..Len(D.fs) : AbsFile(D, k) = p /\ D.fs[k].kind = "file"}
         IN IF S = {} THEN Failure({}, <<>>, {}) ELSE EvalString(eng, D.fs[CHOOSE k \in S : TRUE].c, s.data)
    [] OTHER -> LET set == eng.sets[s.set] IN
                IF ~set.ok THEN Unspec
                ELSE LET r == RenderSet(C, eng, set, s.name, s.data)
                     IN IF r.r = "e" /\ (set.cfg.dir # eng.cfg.dir \/ set.cfg.ext # eng.cfg.ext)
                        THEN [r EXCEPT !.paths = {}] ELSE r

LoadFits(C, eng, s, o) ==
  LET cfg == Conf(eng, s.opt)
      D == Now(C, eng)
      ps == LoadProblems(D, cfg)
  IN \/ C.chk.loose
     \/ \E p \in ps : p.open
     \/ o.ok /\ ps = {}
     \/ ~o.ok /\ \E p \in ps : /\ (C.chk.paths /\ p.paths # {}) => o.path \in p.paths
                               /\ (C.chk.lines /\ p.lines # {}) => o.line \in p.lines
                               /\ (C.chk.has /\ p.has # {}) => \E w \in p.has : Has(o, w)
     \/ ~o.ok /\ ps = {} /\ \E k \in TemplateFiles(D, cfg) : NestedLayout(D, cfg, k)

ResponseFits(C, eng, s, o) ==
  LET a == Alone(C, eng, s)
      set == eng.sets[s.set]
      cfg == eng.cfg
      custom == cfg.err # <<>> /\ ~cfg.debug
      page == IF custom THEN RenderSet(C, eng, set, cfg.err, <<>>) ELSE Unspec
  IN
  IF ~set.ok THEN TRUE
  ELSE IF o.ok THEN a.r # "e" /\ (a.r = "ok" => OutFits(a.out, o.body))
  ELSE /\ a.r # "ok"
       /\ IF custom
          THEN CASE page.r = "ok" -> OutFits(page.out, o.body)
                 [] page.r = "e" -> o.body = <<>> \/ BuiltInPage(C, cfg, s, o)
                 [] OTHER -> TRUE
          ELSE ErrorFits(C, IF a.r = "e" THEN a ELSE Failure({}, <<>>, {}), o) /\ BuiltInPage(C, cfg, s, o)

\* Lexing and parsing: a program or errors with lines; what ends too early
\* and what has an illegal character is not a program
ParseFits(C, s, o) ==
  IF C.chk.loose THEN TRUE
  ELSE LET p == Parse(s.src) IN
    IF p.k = "err" /\ p.c \in {"eof", "ill"} THEN ~o.ok ELSE TRUE

RECURSIVE Allowed(_, _, _, _)
Allowed(C, eng, s, o) ==
  IF o.died \/ o.odd \/ ~o.same THEN FALSE
  ELSE CASE s.op = "load" -> LoadFits(C, eng, s, o)
         [] s.op = "write" -> o.ok
         [] s.op = "register" -> o.ok = ~Registered(eng, s)
         [] s.op = "response" -> ResponseFits(C, eng, s, o)
         [] s.op = "parse" -> ParseFits(C, s, o)
         [] s.op = "lex" -> o.ok /\ Tiling(s.src, o.toks) /\ Exact(s.src, o.toks)
         [] s.op = "contains" -> o.ok /\ Covers(s.src, o.toks)
         [] s.op = "par" -> \A k \in 1..Len(s.calls) : \A j \in 1..Len(o.par[k]) :
                              Allowed(C, eng, s.calls[k], o.par[k][j])
         [] OTHER -> C.chk.loose \/ Fits(C, Alone(C, eng, s), o)

After(C, eng, s, o) ==
  CASE s.op = "load" ->
         LET cfg == Conf(eng, s.opt)
         IN [eng EXCEPT !.cfg = cfg, !.sets = Append(@, [ok |-> o.ok, cfg |-> cfg, fs |-> eng.fs])]
    [] s.op = "register" -> IF o.ok THEN [eng EXCEPT !.funcs = Append(@, [ty |-> s.ty, name |-> s.name, tag |-> s.tag,
                                                                          beh |-> s.beh, val |-> s.val])]
                            ELSE eng
    [] s.op = "write" -> [eng EXCEPT !.fs = Written(@, s.fs)]
    [] OTHER -> eng

-----------------------------------------------------------------------------
(* Determinism.  Whatever happened before, in this process or in another   *)
(* one, the same call in the same configuration has the same result; only  *)
(* shuffle and rand may vary.  seen has the results of earlier calls.      *)

Renders == {"evalstr", "evalfile", "render", "response"}
W_SHUFFLE == B("shuffle")
W_RAND == B("rand")
RandomIn(x) == Contains(x, W_SHUFFLE) \/ Contains(x, W_RAND)
Random(C, s) == IF s.op = "evalstr" THEN RandomIn(s.src) ELSE \/ \E k \in 1..Len(C.fs) : RandomIn(C.fs[k].c)
                                                        \/ \E i \in 1..Len(C.steps) : C.steps[i].op = "write" /\ \E k \in 1..Len(C.steps[i].fs) : RandomIn(C.steps[i].fs[k].c)
Remember(C, seen, eng, s, o) ==
  IF s.op \in Renders THEN Append(seen, [s |-> s, cfg |-> eng.cfg, funcs |-> eng.funcs, fs |-> eng.fs, o |-> o]) ELSE seen
Consistent(C, seen, eng, s, o) ==
  CASE s.op \in Renders ->
         \A k \in 1..Len(seen) :
           (seen[k].s = s /\ seen[k].cfg = eng.cfg /\ seen[k].funcs = eng.funcs /\ seen[k].fs = eng.fs)
             => (seen[k].o = o \/ Random(C, s))
    [] s.op = "par" ->
         \A k \in 1..Len(s.calls) : \A i \in 1..Len(o.par[k]) :
           /\ \A j \in 1..Len(seen) :
                (seen[j].s = s.calls[k] /\ seen[j].cfg = eng.cfg /\ seen[j].funcs = eng.funcs /\ seen[j].fs = eng.fs)
                  => (seen[j].o = o.par[k][i] \/ Random(C, s.calls[k]))
           /\ Len(o.par[k]) = 1 \/ Random(C, s.calls[k])
    [] OTHER -> TRUE
\* the same history in other processes
Reproducible(C, l) == \A k \in 1..Len(C.more) : C.more[k][l] = C.obs[l] \/ Random(C, C.steps[l])

\* what was expected, for reports and for counting
Expected(C, eng, s) ==
  CASE s.op = "load" -> LET ps == LoadProblems(Now(C, eng), Conf(eng, s.opt))
                        IN IF \E p \in ps : p.open THEN Unspec
                           ELSE IF ps = {} THEN [r |-> "ok", out |-> {}] ELSE [r |-> "e", problems |-> ps]
    [] s.op = "register" -> IF Registered(eng, s) THEN [r |-> "e"] ELSE [r |-> "ok", out |-> {}]
    [] s.op \in {"lex", "contains"} -> [r |-> "ok", out |-> Tokens(s.src)]
    [] s.op = "parse" -> LET p == Parse(s.src) IN IF p.k = "ok" THEN [r |-> "ok"] ELSE IF p.k = "err"
                         THEN [r |-> "e", c |-> p.c, lines |-> p.lines] ELSE Unspec
    [] s.op \in {"par", "write"} -> [r |-> "ok"]
    [] C.chk.loose -> Unspec
    [] OTHER -> Alone(C, eng, s)
=============================================================================
