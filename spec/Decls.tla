------------------------------- MODULE Decls -------------------------------
(* Which declarations the macros accept. What they cannot honour has to be *)
(* rejected by the compiler; what the documentation leaves open is free.   *)
EXTENDS Integers, Sequences, FiniteSets

Count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])

\* ---------------------------------------------------------- derive(Tokenize)
\* [item, chars, pars, vars |-> Seq([shape, ty, attrs |-> Seq([a, re, parser, junk])])]
Bytes(d) == d.chars = <<"u8">>
RegexOk(d, v, a) ==
  /\ a.re = "ok" /\ ~a.junk
  /\ IF v.shape = "one" THEN \/ a.parser = "fits"
                             \/ a.parser = "none" /\ ~Bytes(d) /\ v.ty = "fromstr"
     ELSE a.parser = "none"
VarOk(d, v) ==
  /\ v.shape \in {"unit", "utuple", "one"}
  /\ Len(v.attrs) <= 1
  /\ All(v.attrs, LAMBDA a : CASE a.a = "regex" -> RegexOk(d, v, a)
                               [] a.a = "skip" -> v.shape # "one" /\ a.re = "ok" /\ ~a.junk
                               [] a.a = "eof" -> v.shape # "one")
TokenizeOk(d) ==
  /\ d.item = "enum"
  /\ Len(d.chars) <= 1 /\ All(d.chars, LAMBDA c : c \in {"char", "u8"})
  /\ Len(d.pars) <= 1 /\ All(d.pars, LAMBDA c : c \in {"true", "false"})
  /\ All(d.vars, LAMBDA v : VarOk(d, v))
  /\ Count(d.vars, LAMBDA v : \E i \in 1..Len(v.attrs) : v.attrs[i].a = "eof") <= 1
  /\ \E i \in 1..Len(d.vars) : \E j \in 1..Len(d.vars[i].attrs) : d.vars[i].attrs[j].a # "eof"

\* ------------------------------------------------------------- derive(Parse)
\* [item, toks |-> number of token attributes, sws |-> Seq(number of types), fields |-> Seq(Seq(type))]; a struct has one element of fields.
ParseOk(d) ==
  /\ d.item \in {"struct", "enum"}
  /\ d.toks <= 1 /\ Len(d.sws) <= 1 /\ All(d.sws, LAMBDA n : n > 0)
  /\ All(d.fields, LAMBDA fs : All(fs, LAMBDA f : f = "any" \/ (f = "tok" /\ d.toks = 1)))
  /\ d.sws # <<>> => d.toks = 1

\* ----------------------------------------------------------- derive(Spanned)
\* [item, fields |-> Seq(Seq([ty, ts]))]
Asked(fs) ==  \* the fields that are looked at: from both ends to the first one that has a span for sure
  {i \in 1..Len(fs) : (\A j \in 1..(i - 1) : fs[j].ts > 0) \/ (\A j \in (i + 1)..Len(fs) : fs[j].ts > 0)}
FieldsOk(fs) ==
  /\ All(fs, LAMBDA f : f.ts <= 1)
  /\ \E i \in 1..Len(fs) : fs[i].ts = 0
  /\ \A i \in Asked(fs) : fs[i].ty = "span" \/ (fs[i].ty = "opt" /\ fs[i].ts = 1)
SpannedOk(d) == d.item \in {"struct", "enum"} /\ d.fields # <<>> /\ All(d.fields, FieldsOk)

\* --------------------------------------------------------------- token_kind
\* [item, args |-> arguments of the attribute, pays |-> Seq([ty, can])]: payloads of the variants with one unnamed field
KindOk(d) ==
  /\ d.item = "enum" /\ ~d.args
  /\ All(d.pays, LAMBDA p : p.can)
  /\ \A i, j \in 1..Len(d.pays) : d.pays[i].ty = d.pays[j].ty => i = j

\* ---------------------------------------------------------------- token_ast
\* [vis |-> is the visibility one, types |-> number of type parameters, arms |-> Seq([keys |-> are the keys right, value |-> is the
\*  pattern a value, too, pat |-> is it a pattern, guard, prompt \in {"none", "text", "other"}])]
ArmOk(a) == /\ a.keys /\ a.pat
            /\ a.prompt # "other"
            /\ a.guard => a.prompt = "text"
            /\ a.prompt = "none" => a.value
AstOk(d) == d.vis /\ d.types = 1 /\ All(d.arms, ArmOk)

Accepted(d) ==
  CASE d.m = "tokenize" -> TokenizeOk(d.d)
    [] d.m = "parse" -> ParseOk(d.d)
    [] d.m = "spanned" -> SpannedOk(d.d)
    [] d.m = "token_kind" -> KindOk(d.d)
    [] d.m = "token_ast" -> AstOk(d.d)
Verdicts(d) == IF d.free THEN {"accepted", "rejected"} ELSE IF Accepted(d) THEN {"accepted"} ELSE {"rejected"}
============================================================================
