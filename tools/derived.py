"""Sample declarations of derived types (derived/src/lib.rs) and, from the same table, the wire layout each must have as
Verus contracts (contracts/derser.rs, contracts/derde.rs). The layout is computed here from the declaration alone: a field's
wire name is its `rename` or its identifier, and so on. Running this script rewrites these files."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def lit(s): return json.dumps(s, ensure_ascii=False)

class F:
    """A field: identifier, type, attributes."""
    def __init__(self, ident, ty, rename=None, flat=False, default=False, proxy=None):
        self.ident, self.ty, self.rename, self.flat, self.default, self.proxy = ident, ty, rename, flat, default, proxy
        self.name = ident if rename is None else rename
    def decl(self):
        at = []
        if self.flat: at.append("flatten")
        if self.rename is not None: at.append("rename = " + lit(self.rename))
        if self.default: at.append("default")
        if self.proxy: at.append("proxy = " + self.proxy)
        return ("#[serde(%s)] " % ", ".join(at) if at else "") + "%s: %s" % (self.ident, self.ty)

class V:
    """A variant: identifier, fields (None: unit), attributes, explicit discriminant."""
    def __init__(self, ident, fields=None, rename=None, reindex=None, transparent=False, tuple=False, disc=None):
        self.ident, self.fields, self.rename, self.reindex, self.transparent, self.tuple, self.disc = ident, fields, rename, reindex, transparent, tuple, disc
        self.name = ident if rename is None else rename
    def decl(self):
        at = []
        if self.rename is not None: at.append("rename = " + lit(self.rename))
        if self.reindex is not None: at.append("reindex = %d" % self.reindex)
        if self.transparent: at.append("transparent")
        s = ("#[serde(%s)] " % ", ".join(at) if at else "") + self.ident
        if self.tuple: s += "(%s)" % self.fields[0].ty
        elif self.fields is not None: s += " { %s }" % ", ".join(f.decl() for f in self.fields)
        return s + (" = %d" % self.disc if self.disc is not None else "")

class S:
    def __init__(self, name, fields, gen="", de_only=False): self.name, self.fields, self.gen, self.de_only = name, fields, gen, de_only
class E:
    def __init__(self, name, variants, tag=None, rename=None):
        self.name, self.variants, self.rename, self.gen, self.de_only = name, variants, rename, "", False
        # an enum of unit variants is a tag on its own, unless a tag field is asked for
        self.is_tag = tag is None and all(v.fields is None for v in variants)
        self.tag_attr = tag
        self.tag = "type" if tag is None else tag
        # indices count up from the last explicit discriminant; `reindex` changes one index only
        i = 0
        for v in variants:
            if v.disc is not None: i = v.disc
            v.index = i if v.reindex is None else v.reindex
            i += 1
        self.max = max(v.index for v in variants)

DECLS = [
    S("Empty", []),
    S("UnitS", None),
    S("P", [F("x", "i32"), F("y", "f64")]),
    S("Ren", [F("kind", "String", rename="type"), F("odd", "bool", rename='weird " name\n'), F("uni", "Option<char>", rename="é😀"), F("swapped", "u8", rename="kind"), F("_under", "i16", rename="")]),
    S("Opts", [F("a", "Option<u8>"), F("c", "u32", default=True), F("d", "String")]),
    S("Opts2", [F("e", "Option<Option<bool>>", rename="ee", default=True), F("f", "bool", default=True, rename="eff")]),
    E("Tag", [V("A"), V("B"), V("C")]),
    S("Inner", [F("i", "Tag", rename="in"), F("u", "UnitS", flat=True), F("_z", "(u8, bool)")]),
    S("Flat", [F("PreFix", "u8"), F("p", "P", flat=True), F("post", "Option<String>"), F("q", "Inner", flat=True)]),
    S("Gen", [F("v", "T"), F("w", "Vec<T>"), F("o", "Option<u8>")], gen="T"),
    E("Tag2", [V("First", disc=3), V("Second"), V("Third", rename="bee"), V("Fourth", reindex=40), V("Fifth"), V("Sixth", rename='Bé\n"', disc=100), V("Seventh", rename="", disc=0), V("Eighth", rename="bees")]),
    E("Shape", [V("Nothing"), V("Rect", [F("h", "u32", rename="height"), F("fill", "bool", default=True)]),
                V("Point", [F("inner", "P")], transparent=True), V("Pt", [F("", "P")], transparent=True, tuple=True, rename="pt")]),
    E("Kinds", [V("One"), V("Two", rename="two", reindex=9), V("Three", [F("t", "P", flat=True), F("v", "(u8, u8)")])], tag="kind"),
    E("OnlyUnits", [V("X"), V("Y")], tag="t", rename="Other"),
    S("FlatEnum", [F("id", "u32"), F("shape", "Shape", flat=True), F("last", "Option<u8>")]),
    S("Prox", [F("a", "u32", proxy="u8"), F("b", "u64", default=True, proxy="u16", rename="bb"), F("c", "i64")], de_only=True),
]

# ---- the declarations

def decls():
    out = ["//! Written by tools/derived.py: sample declarations; what the derive macros make of them is verified.", "#![allow(dead_code, non_snake_case)]", "use serdere::{Deserialize, Serialize};"]
    for d in DECLS:
        out.append("#[derive(%sDeserialize)]" % ("" if d.de_only else "Serialize, "))
        g = "<%s>" % d.gen if d.gen else ""
        if isinstance(d, S):
            out.append("pub struct %s%s" % (d.name, g) + (";" if d.fields is None else " { %s }" % ", ".join(f.decl() for f in d.fields)))
        else:
            at = (["tag = " + lit(d.tag_attr)] if d.tag_attr is not None else []) + (["rename = " + lit(d.rename)] if d.rename is not None else [])
            if at: out.append("#[serde(%s)]" % ", ".join(at))
            out.append("pub enum %s { %s }" % (d.name, ", ".join(v.decl() for v in d.variants)))
    return "\n".join(out) + "\n"

def wire_name(d): return d.rename if isinstance(d, E) and d.rename is not None else d.name
def self_ty(d): return d.name + ("<%s>" % d.gen if d.gen else "")

# ---- serialization

def chain(fields, get, start="Seq::<(Seq<char>, V)>::empty()"):
    """The entries of the fields, in order, and the lemmas that say writing them one by one writes them all."""
    e, proof = start, []
    for f in fields:
        x = get(f)
        if f.flat:
            a = "<%s as SerializeStruct<S, Ctx>>::fields(%s, null)" % (f.ty, x)
            proof.append("lemma_append_fields(o, %s, %s);" % (e, a)); e = "(%s + %s)" % (e, a)
        else:
            a = "(%s@, <%s as Serialize<S, Ctx>>::val(%s, null))" % (lit(f.name), f.ty, x)
            proof.append("lemma_push_field(o, %s, %s);" % (e, a)); e = "%s.push(%s)" % (e, a)
    return e, proof

def tagged(d, v): return "Seq::<(Seq<char>, V)>::empty().push((%s@, %s))" % (lit(d.tag), tagval(d, v))
def tagval(d, v): return "V::Tag(%d, %d, Some(%s@))" % (d.max, v.index, lit(v.name))
def pat(v):
    if v.tuple: return "Self::%s(z0)" % v.ident
    if v.fields is None: return "Self::%s" % v.ident
    return "Self::%s { %s }" % (v.ident, ", ".join("%s: z%d" % (f.ident, i) for i, f in enumerate(v.fields)))

def vfields(v):
    """The fields of a variant; a transparent one is its sole field spread out."""
    return [F(f.ident, f.ty, flat=True) for f in v.fields] if v.transparent else (v.fields or [])

def ser():
    out = ["//@include prelude0.rs", "//@include opkinds.rs", "/// What a serializer remembers; any type with any behaviour.", "#[verifier::external_body]", "struct Sem { x: u8 }",
           "uninterp spec fn run(s: Sem, op: Op) -> Option<(Ret, Sem)>;", "//@include ops.rs", "//@include sources.rs", "//@include wrappers.rs proved=wrap", "//@include values.rs", "//@include serimpls.rs proved=ser",
           "// Written by tools/derived.py: what each sample declaration must be written as.",
           "proof fn lemma_append_fields(s: Option<Sem>, a: Seq<(Seq<char>, V)>, b: Seq<(Seq<char>, V)>)",
           "    ensures wv_fields(s, a + b) == wv_fields(wv_fields(s, a), b), wv_fields(None, b) is None",
           "    decreases b.len()",
           "{",
           "    lemma_fields_none(None, b, 0);",
           "    if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_append_fields(s, a, b.drop_last()); } else { assert(a + b =~= a); }",
           "}",
           "//@use @derived"]
    for d in DECLS:
        if d.de_only: continue
        kind = "struct" if isinstance(d, S) else "enum"
        out.append("//@item %s %s" % (kind, d.name))
        g = "S: Serializer + ?Sized, Ctx: ?Sized" + (", %s: Serialize<S, Ctx>" % d.gen if d.gen else "")
        T = self_ty(d)
        head = "impl<%s> Serialize<S, Ctx> for %s {" % (g, T)
        if isinstance(d, E) and d.is_tag:
            val = "match self { %s }" % ", ".join("Self::%s => %s" % (v.ident, tagval(d, v)) for v in d.variants)
            out += [head, "//@item const Serialize for %s :: NULLABLE" % d.name, "    spec fn val(&self, null: bool) -> V { %s }" % val, "    proof fn law(&self) {}",
                    "//@fn Serialize for %s :: serialize | ret=r" % d.name, "//@end", "}"]
            continue
        out += [head, "//@item const Serialize for %s :: NULLABLE" % d.name,
                "    spec fn val(&self, null: bool) -> V { V::Struct(Some(%s@), <%s as SerializeStruct<S, Ctx>>::fields(self, null)) }" % (lit(wire_name(d)), T), "    proof fn law(&self) {}",
                "//@fn Serialize for %s :: serialize | ret=r" % d.name, "//@end", "}"]
        if isinstance(d, S):
            e, proof = chain(d.fields or [], lambda f: "&self." + f.ident)
            pr = " ".join(proof)
        else:
            arms, parms = [], []
            for v in d.variants:
                get = {id(f): "z%d" % i for i, f in enumerate(v.fields or [])}
                fs = vfields(v)
                names = {id(f): "z%d" % i for i, f in enumerate(fs)}
                e1, proof = chain(fs, lambda f: names[id(f)], tagged(d, v))
                arms.append("%s => %s" % (pat(v), e1))
                parms.append("%s => { lemma_push_field(o, Seq::<(Seq<char>, V)>::empty(), (%s@, %s)); %s }" % (pat(v), lit(d.tag), tagval(d, v), " ".join(proof)))
            e = "match self { %s }" % ", ".join(arms)
            pr = "match self { %s }" % " ".join(parms)
        out += ["impl<%s> SerializeStruct<S, Ctx> for %s {" % (g, T), "    spec fn fields(&self, null: bool) -> Seq<(Seq<char>, V)> { %s }" % e,
                "//@fn SerializeStruct for %s :: serialize_content | ret=r" % d.name]
        if pr:
            out += ["//@entry", "    proof { let o = Some(st.source.w().sem); let null = st.source.w().null; %s }" % pr]
        out += ["//@end", "}"]
    out += ["} // verus!", "fn main() {}", ""]
    return "\n".join(out)

# ---- deserialization

def T_(ty, tr): return "<%s as %s<D, Ctx>>" % (ty, tr)
class Fold:
    """What is read field by field: conditions, what is left."""
    def __init__(self, v): self.v, self.ok, self.sis, self.n = v, [], [], 0
    def field(self, f, x):
        if f.flat:
            q = T_(f.ty, "DeserializeStruct")
            self.ok.append("%s::sok(%s, null)" % (q, self.v))
            self.sis.append("%s::sis(%s, %s, null)" % (q, self.v, x))
            self.v = "%s::rest(%s)" % (q, self.v)
            return
        fv = "field(%s, %s@)" % (self.v, lit(f.name))
        one = "(%s->0).0" % fv
        q = T_(f.proxy or f.ty, "Deserialize")
        ok = "%s::ok(%s, null)" % (q, one)
        sis = "%s::is(%s, %s, null)" % (q, one, x)
        if f.proxy: sis = "exists|p: %s| %s::is(%s, p, null) && call_ensures(<%s as Into<%s>>::into, (p,), %s)" % (f.proxy, q, one, f.proxy, f.ty, x)
        if f.default:
            ok = "(null && nothing(%s) || %s)" % (one, ok)
            sis = "if null && nothing(%s) { call_ensures(<%s as Default>::default, (), %s) } else { %s }" % (one, f.ty, x, sis)
        self.ok += ["%s is Some" % fv, ok]
        self.sis.append("(%s)" % sis)
        self.v = "(%s->0).1" % fv
    def oks(self): return " && ".join(self.ok) or "true"
    def siss(self): return " && ".join(self.sis) or "true"

def index_of(d, j):
    byname = "".join("if cs == %s@ { Some(%dint) } else " % (lit(v.name), v.index) for v in d.variants) + "{ None::<int> }"
    byidx = "".join("if i == Some(%dint) { i } else " % v.index for v in d.variants) + "{ None::<int> }"
    return "match %s { DF::Val(J::Str(cs)) => %s, DF::Val(J::Num(t)) => { let i = int_read(U64, t); %s }, _ => None }" % (j, byname, byidx)

def distinct(d):
    """The names of the variants are distinct."""
    vs = d.variants
    out = ["reveal_strlit(%s); assert(NAMED@[%d].0@ == %s@); assert(NAMED@[%d].1 == %dusize);" % (lit(v.name), i, lit(v.name), i, v.index) for i, v in enumerate(vs)]
    for i, v in enumerate(vs):
        for j in range(i):
            x, y = vs[j].name, v.name
            at = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), None)
            diff = "%s@.len() != %s@.len()" % (lit(x), lit(y)) if len(x) != len(y) else "%s@[%d] != %s@[%d]" % (lit(x), at, lit(y), at)
            out.append("assert(%s);" % diff)
    n = len(vs)
    alts = lambda k: " || ".join("%s == %d" % (k, i) for i in range(n))
    out.append("assert forall|i: int, j: int| 0 <= i < j < %d implies (#[trigger] NAMED@[i]).0@ != (#[trigger] NAMED@[j]).0@ by { assert(%s); assert(%s); }" % (n, alts("i"), alts("j")))
    return " ".join(out)
def subst(d):
    return ["//@subst const NAMES : & NameMap < usize > = FixedNameMap :: new ( => let NAMED = (",
            "//@subst . unfix ( ) ; => ; proof { %s } let NAMES : & NameMap < usize > = names_of ( NAMED ) ; proof { %s }" % (distinct(d), looked(d))]
def looked(d):
    """What a tag is looked up as."""
    vs = d.variants
    out = ["assert(NAMES@.dom().contains(NAMED@[%d].0@)); assert(lookup(NAMES@, %s@) == Some(%dusize));" % (i, lit(v.name), v.index) for i, v in enumerate(vs)]
    out.append("assert forall|cs: Seq<char>| #[trigger] NAMES@.dom().contains(cs) implies %s by { let i = choose|i: int| 0 <= i < %d && (#[trigger] NAMED@[i]).0@ == cs; assert(%s); }"
               % (" || ".join("cs == %s@" % lit(v.name) for v in vs), len(vs), " || ".join("i == %d" % i for i in range(len(vs)))))
    f = "index_of_%s" % d.name.lower()
    out.append("assert forall|v: DF| #[trigger] %s(v) == match v { DF::Val(j) => variant_of_%s(tag_of(%d, NAMES@, j)), _ => None } by { }" % (f, d.name.lower(), d.max))
    return " ".join(out)

def de():
    out = ["//@include prelude0.rs", "//@include opkinds.rs", "//@include numabs.rs", "//@include treerun.rs", "//@include ops.rs", "//@include sources.rs", "//@include wrappers.rs proved=wrap", "//@include wrapvalidate.rs proved=wrap", "//@include deserimpls.rs proved=deser",
           "// Written by tools/derived.py: what each sample declaration must be read from, and as what.",
           "/// FixedNameMap::new(entries).unfix(), for distinct names (unit namemap).",
           "#[verifier::external_body]",
           "fn names_of<const N: usize>(entries: [(&'static str, usize); N]) -> (r: &'static NameMap<usize>)",
           "    requires forall|i: int, j: int| 0 <= i < j < N ==> (#[trigger] entries@[i]).0@ != (#[trigger] entries@[j]).0@",
           "    ensures",
           "        forall|i: int| 0 <= i < N ==> r@.dom().contains((#[trigger] entries@[i]).0@) && r@[entries@[i].0@] == entries@[i].1,",
           "        forall|cs: Seq<char>| #[trigger] r@.dom().contains(cs) ==> exists|i: int| 0 <= i < N && (#[trigger] entries@[i]).0@ == cs,",
           "{ unimplemented!() }",
           "/// Null, or a missing entry.",
           "spec fn nothing(v: DF) -> bool { v is Missing || v == DF::Val(J::Null) }",
           "//@use @derived"]
    for d in DECLS:
        kind = "struct" if isinstance(d, S) else "enum"
        out.append("//@item %s %s" % (kind, d.name))
        g = "D: Deserializer + ?Sized, Ctx: ?Sized" + (", %s: Deserialize<D, Ctx>" % d.gen if d.gen else "")
        T = self_ty(d)
        head = "impl<%s> Deserialize<D, Ctx> for %s {" % (g, T)
        if isinstance(d, E):
            out.append("spec fn index_of_%s(v: DF) -> Option<int> { %s }" % (d.name.lower(), index_of(d, "v")))
            out.append("spec fn variant_of_%s(i: Option<usize>) -> Option<int> { %s{ None } }" % (d.name.lower(), "".join("if i == Some(%dusize) { Some(%dint) } else " % (v.index, v.index) for v in d.variants)))
        if isinstance(d, E) and d.is_tag:
            ix = "index_of_%s(v)" % d.name.lower()
            out += [head, "//@item const Deserialize for %s :: NULLABLE" % d.name,
                    "    spec fn ok(v: DF, null: bool) -> bool { %s is Some }" % ix,
                    "    spec fn is(v: DF, x: Self, null: bool) -> bool { match x { %s } }" % ", ".join("Self::%s => %s == Some(%dint)" % (v.ident, ix, v.index) for v in d.variants),
                    "    proof fn law(null: bool) {}",
                    "//@fn Deserialize for %s :: deserialize | ret=r" % d.name] + subst(d) + ["//@end", "}"]
            continue
        sp = T_(T, "DeserializeStruct")
        out += [head, "//@item const Deserialize for %s :: NULLABLE" % d.name,
                "    spec fn ok(v: DF, null: bool) -> bool { opened(v) is Some && %s::sok(opened(v)->0, null) && closes(%s::rest(opened(v)->0)) }" % (sp, sp),
                "    spec fn is(v: DF, x: Self, null: bool) -> bool { opened(v) is Some && %s::sis(opened(v)->0, x, null) }" % sp,
                "    proof fn law(null: bool) {}",
                "//@fn Deserialize for %s :: deserialize | ret=r" % d.name, "//@end", "}"]
        out.append("impl<%s> DeserializeStruct<D, Ctx> for %s {" % (g, T))
        if isinstance(d, S):
            fo = Fold("v")
            for f in d.fields or []: fo.field(f, "x." + f.ident)
            out += ["    spec fn sok(v: DF, null: bool) -> bool { %s }" % fo.oks(), "    spec fn sis(v: DF, x: Self, null: bool) -> bool { %s }" % fo.siss(), "    spec fn rest(v: DF) -> DF { %s }" % fo.v,
                    "//@fn DeserializeStruct for %s :: deserialize_content | ret=r" % d.name, "//@end", "}"]
        else:
            ft = "field(v, %s@)" % lit(d.tag)
            ix = "index_of_%s((%s->0).0)" % (d.name.lower(), ft)
            ok, sis, rest = "", [], ""
            for v in d.variants:
                fo = Fold("(%s->0).1" % ft)
                for i, f in enumerate(vfields(v)): fo.field(f, "z%d" % i)
                c = "if i == %dint { " % v.index
                ok += c + fo.oks() + " } else "
                rest += c + fo.v + " } else "
                sis.append("%s => %s == Some(%dint) && %s" % (pat(v), ix, v.index, fo.siss()))
            out += ["    spec fn sok(v: DF, null: bool) -> bool { %s is Some && %s is Some && { let i = %s->0; %s{ false } } }" % (ft, ix, ix, ok),
                    "    spec fn sis(v: DF, x: Self, null: bool) -> bool { match x { %s } }" % ", ".join(sis),
                    "    spec fn rest(v: DF) -> DF { let i = %s->0; %s{ v } }" % (ix, rest),
                    "//@fn DeserializeStruct for %s :: deserialize_content | ret=r" % d.name] + subst(d) + ["//@end", "}"]
    out += ["} // verus!", "fn main() {}", ""]
    return "\n".join(out)

if __name__ == "__main__":
    for p, t in [("derived/src/lib.rs", decls()), ("contracts/derser.rs", ser()), ("contracts/derde.rs", de())]:
        open(os.path.join(HERE, p), "w", encoding="utf-8").write(t)
