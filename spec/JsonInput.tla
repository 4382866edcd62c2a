----------------------------- MODULE JsonInput -----------------------------
(***************************************************************************)
(* The meaning of JSON descriptions of problems.                           *)
(*                                                                         *)
(* A JSON value is [t |-> "obj", k |-> <<[n |-> key, v |-> value], ...>>], *)
(* [t |-> "arr", a |-> <<values>>], [t |-> "num", s |-> text],             *)
(* [t |-> "str", s |-> text], [t |-> "bool", s |-> text] or                *)
(* [t |-> "null"].  The angle of an inclined support is a number that also *)
(* has its exact cosine c and sine sn.                                     *)
(*                                                                         *)
(* Flawed(doc): must be answered with an error by the time it is parsed or *)
(* solved; Open(doc): neither documented as valid nor as invalid;          *)
(* Described(doc): the structure a document without flaws describes.       *)
(***************************************************************************)
EXTENDS Deflect

Keys(o) == {o.k[i].n : i \in 1..Len(o.k)}
Has(o, n) == o.t = "obj" /\ n \in Keys(o)
At(o, n) == o.k[CHOOSE i \in 1..Len(o.k) : o.k[i].n = n].v
EmptyObj == [t |-> "obj", k |-> <<>>]
EmptyArr == [t |-> "arr", a |-> <<>>]
Section(doc, n) == IF Has(doc, n) THEN At(doc, n) ELSE EmptyObj
Text(o, n) == IF Has(o, n) THEN At(o, n).s ELSE ""
Arr(o, n) == IF Has(o, n) THEN At(o, n).a ELSE <<>>

Huge == RParse("1e308")
IsNumV(v) == v.t = "num" /\ RIsNum(v.s) /\ RLe(RAbs(RParse(v.s)), Huge)
IsStrV(v) == v.t = "str"
ObjOf(v, P(_)) == v.t = "obj" /\ \A i \in 1..Len(v.k) : P(v.k[i].v)
ArrOf(v, P(_)) == v.t = "arr" /\ \A i \in 1..Len(v.a) : P(v.a[i])
Field(o, n, P(_)) == Has(o, n) => P(At(o, n))

-----------------------------------------------------------------------------
(* Types *)
NumObj(v) == ObjOf(v, IsNumV)
NumArr(v) == ArrOf(v, IsNumV)
StrArr(v) == ArrOf(v, IsStrV)
KindPar(v) == v.t = "obj" /\ Field(v, "kind", IsStrV) /\ Field(v, "parameter", NumObj)
ElemShape(v) == /\ v.t = "obj"
                /\ \A n \in {"kind", "cs", "material"} : Field(v, n, IsStrV)
                /\ Field(v, "nodes", StrArr)
                /\ Field(v, "hinges", LAMBDA h : ObjOf(h, StrArr))
LinkShape(v) == v.t = "obj" /\ Field(v, "from", IsStrV) /\ Field(v, "to", IsStrV) /\ Field(v, "angle", IsNumV)
IsElemLoad(v) == Has(v, "kind") /\ Has(v, "degree") /\ IsStrV(At(v, "kind")) /\ IsStrV(At(v, "degree"))
LoadShape(v) == /\ v.t = "obj"
                /\ IF IsElemLoad(v) THEN Field(v, "values", NumArr) /\ Field(v, "position", NumArr) ELSE NumObj(v)
ListsOf(v, P(_)) == ObjOf(v, LAMBDA w : ArrOf(w, P))
DocShape(doc) ==
  /\ doc.t = "obj"
  /\ ObjOf(Section(doc, "nodes"), NumArr)
  /\ ObjOf(Section(doc, "material"), KindPar)
  /\ ObjOf(Section(doc, "crosssection"), KindPar)
  /\ ObjOf(Section(doc, "elements"), ElemShape)
  /\ ListsOf(Section(doc, "dirichlet"), NumObj)
  /\ ListsOf(Section(doc, "links"), LinkShape)
  /\ ListsOf(Section(doc, "neumann"), LoadShape)

-----------------------------------------------------------------------------
(* Contents; all of the following require DocShape *)
Entries(doc, sec) == {Section(doc, sec).k[i] : i \in 1..Len(Section(doc, sec).k)}
Pars(v) == IF Has(v, "parameter") THEN At(v, "parameter") ELSE EmptyObj
HasNum(o, n) == Has(o, n)
ParNum(o, n) == IF Has(o, n) THEN RParse(At(o, n).s) ELSE R0
Pos0(x) == RLt(R0, x)

NodesOk(doc) == Entries(doc, "nodes") # {} /\ \A e \in Entries(doc, "nodes") : Len(e.v.a) = 3
MaterialsOk(doc) ==
  /\ Entries(doc, "material") # {}
  /\ \A e \in Entries(doc, "material") : Text(e.v, "kind") = "linelast" /\ {"E", "nu", "rho"} \subseteq Keys(Pars(e.v))
SectionOk(v) ==
  LET p == Pars(v) IN
  CASE Text(v, "kind") = "rectangle" -> Pos0(ParNum(p, "b")) /\ Pos0(ParNum(p, "h")) /\ RLe(R0, ParNum(p, "roll"))
    [] Text(v, "kind") = "constants" -> /\ \A n \in {"A", "Iyy", "Izz"} : Pos0(ParNum(p, n))
                                        /\ RLe(R0, ParNum(p, "Ixx")) /\ RLe(R0, ParNum(p, "roll"))
    [] OTHER -> FALSE
SectionsOk(doc) == Entries(doc, "crosssection") # {} /\ \A e \in Entries(doc, "crosssection") : SectionOk(e.v)

NodeIds(doc) == {e.n : e \in Entries(doc, "nodes")}
(* the two nodes of an element as a set of possible pairs: empty if there are none *)
EndsOf(doc, id, v) ==
  LET ns == Arr(v, "nodes") IN
  IF Len(ns) = 2 THEN IF {ns[1].s, ns[2].s} \subseteq NodeIds(doc) THEN {<<ns[1].s, ns[2].s>>} ELSE {}
  ELSE IF Len(ns) > 0 THEN {}
  ELSE LET short == {n \in NodeIds(doc) : StrLen(n) = 1} IN
       {ab \in short \X short : StrCat(ab[1], ab[2]) = id}
Ends(doc, id, v) == CHOOSE ab \in EndsOf(doc, id, v) : TRUE
(* name of the material or cross section to use; {} if there is none *)
Chosen(doc, sec, name) ==
  LET all == {e.n : e \in Entries(doc, sec)} IN
  IF name # "" THEN all \cap {name} ELSE IF Cardinality(all) = 1 THEN all ELSE {}
RECURSIVE HingeList(_, _)
HingeList(h, i) ==
  IF i > Len(h.k) THEN <<>>
  ELSE [j \in 1..Len(h.k[i].v.a) |-> [node |-> h.k[i].n, dof |-> h.k[i].v.a[j].s]] \o HingeList(h, i + 1)
Hinges(v) == IF Has(v, "hinges") THEN HingeList(At(v, "hinges"), 1) ELSE <<>>
NodeRec(doc, id) == LET c == At(Section(doc, "nodes"), id).a IN [id |-> id, x |-> c[1].s, y |-> c[2].s, z |-> c[3].s]
ElemRec(doc, id, v) ==
  LET ab == Ends(doc, id, v) IN
  [id |-> id, kind |-> Text(v, "kind"), n0 |-> ab[1], n1 |-> ab[2],
   mat |-> CHOOSE m \in Chosen(doc, "material", Text(v, "material")) : TRUE,
   cs |-> CHOOSE c \in Chosen(doc, "crosssection", Text(v, "cs")) : TRUE,
   hinges |-> Hinges(v)]
ElementOk(doc, id, v) ==
  /\ id # ""
  /\ Text(v, "kind") \in {"truss2d", "truss3d", "frame2d"}
  /\ EndsOf(doc, id, v) # {}
  /\ Chosen(doc, "material", Text(v, "material")) # {}
  /\ Chosen(doc, "crosssection", Text(v, "cs")) # {}
  /\ LET e == ElemRec(doc, id, v) IN
     /\ (IF Has(v, "hinges") THEN Keys(At(v, "hinges")) \subseteq {e.n0, e.n1} ELSE TRUE)
     /\ \A i \in 1..Len(e.hinges) : IsDof(e.hinges[i].dof)
     /\ ElemOk(<<NodeRec(doc, e.n0), NodeRec(doc, e.n1)>>, e)
ElementsOk(doc) == Entries(doc, "elements") # {} /\ \A e \in Entries(doc, "elements") : ElementOk(doc, e.n, e.v)

ForceDof == [Fx |-> "Ux", Fz |-> "Uz", Fy |-> "Uy", My |-> "Phiy", Mz |-> "Phiz", Mx |-> "Phix"]
LineDof == ForceDof @@ [qx |-> "Ux", qz |-> "Uz", qy |-> "Uy", my |-> "Phiy", mz |-> "Phiz", mx |-> "Phix"]

(* lists of objects per name, flattened to sequences of [at, v] *)
RECURSIVE FlatEntries(_, _)
FlatEntries(s, i) == IF i > Len(s.k) THEN <<>>
                     ELSE [j \in 1..Len(s.k[i].v.a) |-> [at |-> s.k[i].n, v |-> s.k[i].v.a[j]]] \o FlatEntries(s, i + 1)
Flat(doc, sec) == FlatEntries(Section(doc, sec), 1)
RECURSIVE FlatPairs(_, _)
FlatPairs(fs, i) == IF i > Len(fs) THEN <<>>
                    ELSE [j \in 1..Len(fs[i].v.k) |-> [at |-> fs[i].at, n |-> fs[i].v.k[j].n, s |-> fs[i].v.k[j].v.s]] \o FlatPairs(fs, i + 1)

DirichletOk(doc) == \A i \in 1..Len(Flat(doc, "dirichlet")) : \A n \in Keys(Flat(doc, "dirichlet")[i].v) : IsDof(n)
LinkOk(v) == /\ {Text(v, "from"), Text(v, "to")} \subseteq {"Ux", "Uz", "Uy"}
             /\ Text(v, "from") # Text(v, "to")
LinksOk(doc) == \A i \in 1..Len(Flat(doc, "links")) : LinkOk(Flat(doc, "links")[i].v)
(* the load an object describes, if its form is right *)
LoadForm(v) ==
  LET n == Len(Arr(v, "values")) p == Len(Arr(v, "position")) IN
  CASE Text(v, "degree") = "dirac" -> n = 1 /\ p = 1
    [] Text(v, "degree") = "constant" -> n = 1 /\ p = 0
    [] Text(v, "degree") = "linear" -> n = 2 /\ p = 0
    [] OTHER -> FALSE
LoadRec(v, id) ==
  LET vals == Arr(v, "values")
      base == [id |-> id, type |-> Text(v, "degree"), kind |-> LineDof[Text(v, "kind")], v0 |-> vals[1].s]
  IN CASE Text(v, "degree") = "dirac" -> [pos |-> Arr(v, "position")[1].s] @@ base
       [] Text(v, "degree") = "linear" -> [v1 |-> vals[2].s] @@ base
       [] OTHER -> base
NodalOk(v) == v.k # <<>> /\ \A n \in Keys(v) : n \in DOMAIN ForceDof
ElemLoadOk(doc, at, v) ==
  /\ at \in {e.n : e \in Entries(doc, "elements")}
  /\ Text(v, "kind") \in DOMAIN LineDof
  /\ LoadForm(v)
  /\ LET ev == At(Section(doc, "elements"), at)
         e == ElemRec(doc, at, ev)
         St == [nodes |-> <<NodeRec(doc, e.n0), NodeRec(doc, e.n1)>>, elems |-> <<e>>]
     IN Accepts(St, at, LoadRec(v, ""))
NeumannOk(doc) == \A i \in 1..Len(Flat(doc, "neumann")) :
  LET f == Flat(doc, "neumann")[i] IN IF IsElemLoad(f.v) THEN ElemLoadOk(doc, f.at, f.v) ELSE NodalOk(f.v)

SupportedSomehow(doc) == Flat(doc, "links") # <<>> \/ \E i \in 1..Len(Flat(doc, "dirichlet")) : Flat(doc, "dirichlet")[i].v.k # <<>>
Content(doc) == /\ NodesOk(doc) /\ MaterialsOk(doc) /\ SectionsOk(doc) /\ ElementsOk(doc)
                /\ DirichletOk(doc) /\ LinksOk(doc) /\ NeumannOk(doc) /\ SupportedSomehow(doc)
Flawed(doc) == ~(DocShape(doc) /\ Content(doc))

-----------------------------------------------------------------------------
(* sequence of the entries of a section, mapped *)
MapEntries(doc, sec, F(_)) == LET s == Section(doc, sec).k IN TLCEval([i \in 1..Len(s) |-> F(s[i])])
LoadsOf(doc, id) ==
  LET F == SelectSeq(Flat(doc, "neumann"), LAMBDA f : IsElemLoad(f.v) /\ f.at = id) IN
  [i \in 1..Len(F) |-> LoadRec(F[i].v, ToString(i))]
ParRec(v) == [n \in Keys(Pars(v)) |-> At(Pars(v), n).s]
Described(doc) ==
  LET es == MapEntries(doc, "elements", LAMBDA e : ElemRec(doc, e.n, e.v))
      nodal == FlatPairs(SelectSeq(Flat(doc, "neumann"), LAMBDA f : ~IsElemLoad(f.v)), 1)
      fixed == FlatPairs(Flat(doc, "dirichlet"), 1)
      links == Flat(doc, "links")
  IN [nodes |-> MapEntries(doc, "nodes", LAMBDA e : NodeRec(doc, e.n)),
      mats |-> MapEntries(doc, "material", LAMBDA e : [id |-> e.n] @@ ParRec(e.v)),
      css |-> MapEntries(doc, "crosssection", LAMBDA e : [id |-> e.n, kind |-> Text(e.v, "kind"), par |-> ParRec(e.v)]),
      elems |-> es,
      dirichlet |-> [i \in 1..Len(fixed) |-> [node |-> fixed[i].at, dof |-> fixed[i].n, val |-> fixed[i].s]],
      neumann |-> [i \in 1..Len(nodal) |-> [node |-> nodal[i].at, dof |-> ForceDof[nodal[i].n], val |-> nodal[i].s]],
      links |-> [i \in 1..Len(links) |-> [node |-> links[i].at, from |-> Text(links[i].v, "from"), to |-> Text(links[i].v, "to"),
                                         c |-> At(links[i].v, "angle").c, s |-> At(links[i].v, "angle").sn]],
      bag |-> [id \in {es[i].id : i \in 1..Len(es)} |-> TLCEval(LoadsOf(doc, id))]]

-----------------------------------------------------------------------------
(* Documents nothing is promised about, except that nobody panics *)
Unique(o) == Cardinality(Keys(o)) = Len(o.k)
KnownKeys(o, S) == Keys(o) \subseteq S
RECURSIVE AllUnique(_)
AllUnique(v) == CASE v.t = "obj" -> Unique(v) /\ \A i \in 1..Len(v.k) : AllUnique(v.k[i].v)
                  [] v.t = "arr" -> \A i \in 1..Len(v.a) : AllUnique(v.a[i])
                  [] OTHER -> TRUE
(* unknown names inside of the sections: may be ignored or refused *)
Extra(doc) ==
  \/ \E s \in {"material", "crosssection"} : \E e \in Entries(doc, s) : ~KnownKeys(e.v, {"kind", "parameter"})
  \/ \E e \in Entries(doc, "material") : ~KnownKeys(Pars(e.v), {"E", "nu", "rho"})
  \/ \E e \in Entries(doc, "crosssection") :
        ~KnownKeys(Pars(e.v), IF Text(e.v, "kind") = "rectangle" THEN {"b", "h", "roll"} ELSE {"A", "Iyy", "Izz", "Ixx", "roll"})
  \/ \E e \in Entries(doc, "elements") : ~KnownKeys(e.v, {"kind", "nodes", "cs", "material", "hinges"})
  \/ \E i \in 1..Len(Flat(doc, "links")) : ~KnownKeys(Flat(doc, "links")[i].v, {"from", "to", "angle"})
  \/ \E i \in 1..Len(Flat(doc, "neumann")) : LET v == Flat(doc, "neumann")[i].v IN
        IsElemLoad(v) /\ ~KnownKeys(v, {"kind", "degree", "values", "position"})
Vague(doc) ==
  \/ \E i \in 1..Len(Flat(doc, "links")) : LET v == Flat(doc, "links")[i].v IN ~Has(v, "angle") \/ "c" \notin DOMAIN At(v, "angle")
  \/ \E e \in Entries(doc, "material") : ~Pos0(ParNum(Pars(e.v), "E"))
  \* inclined supports whose directions are also prescribed
  \/ \E i \in 1..Len(Flat(doc, "links")) : \E j \in 1..Len(Flat(doc, "dirichlet")) :
        LET l == Flat(doc, "links")[i] d == Flat(doc, "dirichlet")[j] IN l.at = d.at /\ Text(l.v, "from") \in Keys(d.v)

(* Errors that layout or solve would report, too *)
Deferred(St) == ~LayoutOk(St) \/ ~(Referred(St) \subseteq AllDofs(St)) \/ Len(Prescribed(St)) = 0

(* null in place of a value: nothing is documented *)
RECURSIVE AnyNull(_)
AnyNull(v) == CASE v.t = "null" -> TRUE
                [] v.t = "obj" -> \E i \in 1..Len(v.k) : AnyNull(v.k[i].v)
                [] v.t = "arr" -> \E i \in 1..Len(v.a) : AnyNull(v.a[i])
                [] OTHER -> FALSE

(* names that differ in case only *)
Names1 == {"nodes", "material", "crosssection", "elements", "dirichlet", "links", "neumann", "kind", "parameter", "cs", "hinges",
           "from", "to", "angle", "degree", "values", "position"}
RECURSIVE OtherCase(_)
OtherCase(v) == CASE v.t = "obj" -> \E i \in 1..Len(v.k) : (v.k[i].n \notin Names1 /\ StrLower(v.k[i].n) \in Names1) \/ OtherCase(v.k[i].v)
                  [] v.t = "arr" -> \E i \in 1..Len(v.a) : OtherCase(v.a[i])
                  [] OTHER -> FALSE

(* "flawed", "vague", "extra", "deferred", "valid" *)
DocClass(doc) ==
  IF AnyNull(doc) \/ ~AllUnique(doc) \/ OtherCase(doc) THEN "vague"
  ELSE IF ~DocShape(doc) THEN "flawed"
  ELSE IF ~Content(doc) THEN "flawed"
  ELSE IF Vague(doc) THEN "vague"
  ELSE IF Deferred(Described(doc)) THEN "deferred"
  ELSE IF Extra(doc) THEN "extra" ELSE "valid"
(* What the problem is after parsing: NoProblem stands for none or unknown. *)
BadProblem == [bad |-> TRUE]
Nothing == [none |-> TRUE]
AfterParsing(doc, success) ==
  IF ~success THEN Nothing
  ELSE CASE DocClass(doc) = "flawed" -> BadProblem
         [] DocClass(doc) = "vague" -> Nothing
         [] OTHER -> Described(doc)
ParseClauses(doc, rep) == {Cl("parseok", DocClass(doc) = "valid" => rep.err = "", <<DocClass(doc), rep>>),
                           Cl("parsebad", DocClass(doc) = "flawed" => rep.err # "", <<DocClass(doc), rep>>)}

-----------------------------------------------------------------------------
(* The public fields of a parsed problem *)
NumEq(text, other) == RIsNum(text) /\ LET y == RParse(other) IN RLe(RAbs(RSub(RParse(text), y)), RMul(RAbs(y), RParse("1e-15")))
SameList(as, bs, Same(_, _)) ==
  /\ Len(as) = Len(bs)
  /\ \A i \in 1..Len(as) : Cardinality({j \in 1..Len(as) : Same(as[j], as[i])}) = Cardinality({j \in 1..Len(bs) : Same(bs[j], as[i])})
SameNodal(a, b) == a.node = b.node /\ a.dof = b.dof /\ NumEq(a.val, b.val)
LinkBcs(St) == [k \in 1..Len(St.links) |-> [node |-> St.links[k].node, dof |-> St.links[k].to, val |-> "0"]]
DumpClauses(St, rep) ==
  {Cl("dumpnodes", SameList(St.nodes, rep.nodes, LAMBDA a, b : a.id = b.id /\ NumEq(a.x, b.x) /\ NumEq(a.y, b.y) /\ NumEq(a.z, b.z)), rep.nodes),
   Cl("dumpelems", /\ Len(rep.elems) = Len(St.elems)
                   /\ \A i \in 1..Len(St.elems) : \E j \in 1..Len(rep.elems) :
                        /\ rep.elems[j].id = St.elems[i].id
                        /\ rep.elems[j].n = 2
                        /\ {<<x.node, x.dof>> : x \in {rep.elems[j].idx[m] : m \in 1..Len(rep.elems[j].idx)}} = ElemDofs(St.elems[i]), rep.elems),
   Cl("dumpdirichlet", SameList(St.dirichlet \o LinkBcs(St), rep.dirichlet, SameNodal), rep.dirichlet),
   Cl("dumpneumann", SameList(St.neumann, rep.neumann, SameNodal), rep.neumann),
   Cl("dumplinks", rep.links = Len(St.links), rep.links)}
(* ... and in the order in which the user listed everything *)
InOrder(as, bs, Same(_, _)) == Len(as) = Len(bs) /\ \A i \in 1..Len(as) : Same(bs[i], as[i])
KeptClauses(St, rep) ==
  {Cl("untouched", /\ InOrder(St.nodes, rep.nodes, LAMBDA a, b : a.id = b.id /\ NumEq(a.x, b.x) /\ NumEq(a.y, b.y) /\ NumEq(a.z, b.z))
                   /\ InOrder(St.elems, rep.elems, LAMBDA a, b : a.id = b.id)
                   /\ InOrder(St.dirichlet \o LinkBcs(St), rep.dirichlet, SameNodal)
                   /\ InOrder(St.neumann, rep.neumann, SameNodal)
                   /\ rep.links = Len(St.links), rep)}
=============================================================================
