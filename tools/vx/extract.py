"""Builds a Verus file for a unit: contract template (contracts/<unit>.rs) + code extracted from /repo.

Template directives (lines whose first non-blank characters are `//@`):

  //@include FILE [proved=UNIT] another template; with proved=, its functions are taken by contract only, their bodies are verified in UNIT
  //@use PATH                     current source file, relative to the repository (@derived: the expansion of the sample declarations)
  //@item KIND NAME               extract a struct / enum / const / type verbatim
  //@fn PATH [| option ...]       extract a function; followed by sections, closed by //@end
      options: ret=NAME (name of the result, default r), name=NEW (emit under another name),
               loops=N (expected number of loops + labelled blocks, in source order),
               trusted (contract assumed, body not verified: part of the trusted base),
               resolve[=NAME,..] (ghost assert(has_resolved(NAME)) before each return: without it Verus does not relate a mutable
               reference to its final value after a match with guards),
      sig (emit only the signature + spec + `;`, for trait methods without body)
    //@spec                       text placed between signature and body (requires/ensures/decreases)
    //@entry                      ghost text placed at the start of the body
    //@exit                       ghost text placed at the end of the body (bodies without a tail expression)
    //@loop K                     clauses for the K-th loop or labelled block (1-based, source order)
    //@in K                       ghost text placed at the start of the body of loop K
    //@after-loop K               ghost text placed right after loop K (as a statement)
    //@before[#n] TOKENS          ghost text placed before the n-th occurrence (default: the only one)
    //@after[#n] TOKENS           ghost text placed after it
    //@subst[#n] TOKENS => TOKENS declared token rewrite (reported as such in the evidence)
  //@end

  //@for A,B in x,y z,w ... //@endfor   repeats the lines between with $A, $B replaced
Everything else in the template is copied. What extraction does to code (see DESIGN.md, "Extraction rules"):
comments, doc comments, attributes and visibility are dropped; `const` is dropped from `const fn`; the result is
named; labelled blocks become loops that end in `break`; formatted assert!/panic! become calls of rt_assert/rt_panic.
"""
import re, os, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlex
from rustlex import lex, match_close, norm, norm_text, Tok, LexError

class Lost(Exception):
    """The source no longer has the shape the contract is attached to."""

def expand_macros(text):
    """Appends the expansion of every invocation of single-arm `macro_rules!` item macros ($x:ty parameters)."""
    src = rustlex.Source("<m>", text)
    macros, out = {}, []
    for it in src.items:
        if it.kind == "macro" and it.name.startswith("macro_rules:"):
            lo, hi = it.body
            t = src.toks
            j = lo + 1
            if t[j].text != "(": continue
            k = match_close(t, j)
            params = [t[x + 1].text for x in range(j, k) if t[x].text == "$"]
            if t[k + 1].text != "=>": continue
            b = k + 2
            e = match_close(t, b)
            if e + 1 < hi and not (t[e + 1].text == ";" and e + 2 >= hi): continue  # several arms
            macros[it.name.split(":")[1]] = (params, text[t[b].end:t[e].start])
        elif it.kind == "macro" and it.name in macros:
            params, body = macros[it.name]
            lo, hi = it.body
            args, cur = [], []
            for x in range(lo + 1, hi):
                if src.toks[x].text == ",": args.append(cur); cur = []
                else: cur.append(src.toks[x].text)
            if cur: args.append(cur)
            if len(args) != len(params): raise Lost("macro arguments of " + it.name)
            exp = body
            for p, a in zip(params, args):
                exp = re.sub(r"\$" + p + r"\b", " ".join(a), exp)
            out.append(exp)
    return text + "\n" + "\n".join(out)

DERIVED, DERIVED_LOCK = {}, threading.Lock()

def derived(root):
    """What the derive macros of the tree at `root` make of the sample declarations in /verif/derived (rustc's own expansion).
    The prefixes ::serdere::, ::serdere::serialize:: and ::serdere::deserialize:: of the expansion's paths are dropped."""
    with DERIVED_LOCK:
        if root not in DERIVED:
            DERIVED[root] = expand_derived(root)
    if DERIVED[root] is None: raise Lost("the derive macros do not expand the sample declarations")
    return DERIVED[root]

def expand_derived(root):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    work = os.path.join(here, "work", "derived-%d" % os.getpid())
    try:
        shutil.copytree(os.path.join(here, "derived"), work, dirs_exist_ok=True)
        toml = os.path.join(work, "Cargo.toml")
        text = open(toml).read().replace('"/repo/', '"%s/' % os.path.abspath(root))
        open(toml, "w").write(text)
        env = ". /opt/vp/env.sh >/dev/null 2>&1; export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=%s; " % os.path.join(here, "work", "target-derived")
        p = subprocess.run(["bash", "-c", env + "exec cargo rustc --offline --locked --quiet --lib -- -Zunpretty=expanded"], cwd=work, capture_output=True, text=True, timeout=200)
        if p.returncode != 0: return None
        return p.stdout.replace("::serdere::serialize::", "").replace("::serdere::deserialize::", "").replace("::serdere::", "")
    except (OSError, subprocess.TimeoutExpired):
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)

class Repo:
    def __init__(self, root):
        self.root, self.cache = root, {}
    def source(self, rel):
        if rel not in self.cache:
            text = derived(self.root) if rel == "@derived" else open(os.path.join(self.root, rel), encoding="utf-8").read()
            try:
                text = expand_macros(text)
                self.cache[rel] = rustlex.Source(rel, text)
            except LexError as e:
                raise Lost("%s: %s" % (rel, e))
        return self.cache[rel]

def strip(src, lo, hi):
    """Source text of tokens lo..hi without comments, attributes and visibility."""
    t, edits, i = src.toks, [], lo
    parts = []
    while i < hi:
        if t[i].text == "#" and t[i].kind == "p" and i + 1 < hi and t[i + 1].text in ("[", "!") :
            j = i + 1 if t[i + 1].text == "[" else i + 2
            i = match_close(t, j) + 1; continue
        if t[i].text == "pub" and t[i].kind == "id":
            i += 1
            if t[i].text == "(": i = match_close(t, i) + 1
            continue
        parts.append(i); i += 1
    # re-emit with original line structure
    out, prev = [], None
    for i in parts:
        if prev is not None:
            gap = src.text[t[prev].end:t[i].start]
            out.append("\n" if "\n" in gap else (" " if gap else ""))
            if "\n" in gap:
                col = t[i].start - (src.text.rfind("\n", 0, t[i].start) + 1)
                out.append(" " * col)
        out.append(t[i].text); prev = i
    return "".join(out)

class FnBlock:
    def __init__(self, path, opts, line):
        self.path, self.opts, self.line = path, opts, line
        self.sections = []   # (kind, arg, n, text)

LOOPS = ("while", "for", "loop")

def find_loops(toks):
    """[(kw index, body '{' index, body '}' index, label index or None, kind)] in source order. toks: function body tokens."""
    res = []
    for i, t in enumerate(toks):
        if t.kind == "lifetime" and i + 2 < len(toks) and toks[i + 1].text == ":":
            if toks[i + 2].text == "{":
                res.append((i, i + 2, match_close(toks, i + 2), i, "block"))
            continue
        if t.kind != "id" or t.text not in LOOPS: continue
        if t.text == "for" and toks[i + 1].text == "<": continue
        j = i + 1
        label = i - 2 if i >= 2 and toks[i - 1].text == ":" and toks[i - 2].kind == "lifetime" else None
        if t.text == "while" and toks[j].text == "let":
            d = 0
            while not (toks[j].text == "=" and d == 0):
                if toks[j].text in "([{": d += 1
                if toks[j].text in ")]}": d -= 1
                j += 1
        elif t.text == "for":
            while toks[j].text != "in": j += 1
        while toks[j].text != "{":
            if toks[j].text in ("(", "["): j = match_close(toks, j)
            j += 1
        res.append((i, j, match_close(toks, j), label, t.text))
    return res

def loop_shape(src, path):
    """Kinds of the loops of a function and their nesting: what loop annotations are tied to."""
    it = src.find(path, "fn")
    if it.body is None: return ""
    bt = lex(strip(src, it.body[0], it.body[1] + 1))
    ls = find_loops(bt)
    out = []
    for l in ls:
        d = sum(1 for m in ls if m[1] < l[0] and l[2] < m[2])
        k = l[4] + ("-let" if l[4] == "while" and bt[l[0] + 1].text == "let" else "")
        out.append("%d%s" % (d, k))
    return " ".join(out)

def occurrences(toks, pat):
    p = [t.text for t in lex(pat)]
    return [i for i in range(len(toks) - len(p) + 1) if all(toks[i + k].text == p[k] for k in range(len(p)))], len(p)

def emit_fn(src, blk, rewrites, degrade=False, probe=False):
    path = blk.path
    try:
        it = src.find(path, "fn")
    except KeyError as e:
        raise Lost(str(e))
    t = src.toks
    quals, kw, sigend = it.head
    # ---- signature
    head = [x for x in range(kw, sigend)]
    # locate '->' at depth 0 and where
    arrow = where = None
    j = kw + 2
    if t[j].text == "<": j = rustlex.skip_generics(t, j)
    j = match_close(t, j) + 1
    parms_end = j
    if j < sigend and t[j].text == "->":
        arrow = j
        k = j + 1
        while k < sigend and t[k].text != "where":
            if t[k].text in ("(", "["): k = match_close(t, k)
            elif t[k].text == "<": k = rustlex.skip_generics(t, k) - 1
            k += 1
        ret_end = k
        if k < sigend: where = k
    else:
        ret_end = j
        if j < sigend and t[j].text == "where": where = j
    name = blk.opts.get("name", t[kw + 1].text)
    sig = "fn " + name + strip(src, kw + 2, parms_end)
    # `_: T` parameters get a name (the verifier wants one); the body cannot mention them
    ts = lex(sig); wild = [i for i in range(len(ts) - 1) if ts[i].text == "_" and ts[i + 1].text == ":" and ts[i - 1].text in ("(", ",")]
    for k, i in reversed(list(enumerate(wild))): sig = sig[:ts[i].start] + "_unnamed%d" % (k + 1) + sig[ts[i].end:]
    if arrow is not None:
        rty = strip(src, arrow + 1, ret_end)
        rn = blk.opts.get("ret", "r")
        sig += " -> " + ("(%s: %s)" % (rn, rty) if rty.strip() != "!" else rty)
    if where is not None:
        sig += " " + strip(src, where, sigend)
    for kind, arg, n, text in blk.sections:
        if kind == "sigsubst":
            a, b = [x.strip() for x in arg.split("=>")]
            if norm_text(a) not in norm_text(sig): raise Lost("%s: signature has no `%s`" % (path, a))
            ts = lex(sig); occ, ln = occurrences(ts, a)
            for o in reversed(occ): sig = sig[:ts[o].start] + b + sig[ts[o + ln - 1].end:]
            rewrites.append("%s (signature): %s => %s" % (path, a, b))
    spec = "".join(x[3] for x in blk.sections if x[0] == "spec")
    if "sig" in blk.opts:
        return sig + "\n" + spec + ";\n", sig
    if it.body is None: raise Lost(path + ": no body")
    if degrade or "trusted" in blk.opts:
        return "#[verifier::external_body]\n" + sig + "\n" + spec + "{ unimplemented!() }\n", sig
    # ---- body: work on stripped text
    body = strip(src, it.body[0], it.body[1] + 1)
    bt = lex(body)
    for kind, arg, n, text in blk.sections:
        if kind == "subst":
            a, b = [x.strip() for x in arg.split("=>", 1)] if " ==> " not in arg else [x.strip() for x in arg.split("==>", 1)]
            occ, ln = occurrences(bt, a)
            if not occ or (n is not None and n != "*" and len(occ) < n) or (n is None and len(occ) != 1):
                raise Lost("%s: rewrite anchor `%s` occurs %d times" % (path, a, len(occ)))
            sel = occ if n == "*" else [occ[(n or 1) - 1]]
            for o in reversed(sel):
                body = body[:bt[o].start] + b + body[bt[o + ln - 1].end:]
            bt = lex(body)
            rewrites.append("%s: %s => %s" % (path, a, b))
    for kind, arg, n, text in blk.sections:
        if kind == "dropargs":
            # every call of a function whose result the contracts do not look into: arguments are dropped
            a, b = [x.strip() for x in arg.split("=>")]
            while True:
                occ, ln = occurrences(bt, a + "(")
                if not occ: break
                o = occ[-1]; k = match_close(bt, o + ln - 1)
                body = body[:bt[o].start] + b + body[bt[k].end:]
                bt = lex(body)
                r = "%s: %s(..) => %s" % (path, a, b)
                if r not in rewrites: rewrites.append(r)
    edits = []  # (pos, order, text) insertions ; replacements handled as (start,end,text)
    repl = []
    # R: macros
    for i, x in enumerate(bt):
        if x.kind == "id" and x.text in ("assert", "panic", "debug_assert", "unreachable", "todo", "unimplemented", "matches") and i + 2 < len(bt) and bt[i + 1].text == "!" and bt[i + 2].text in ("(", "["):
            k = match_close(bt, i + 2)
            if x.text in ("assert", "debug_assert"):
                # first argument only
                d, c = 0, k
                for y in range(i + 3, k):
                    if bt[y].text in "([{": d += 1
                    elif bt[y].text in ")]}": d -= 1
                    elif bt[y].text == "," and d == 0: c = y; break
                repl.append((bt[i].start, bt[i + 2].end, "rt_assert(", False))
                repl.append((bt[c].start, bt[k].end, ")", False))
            elif x.text in ("panic", "unreachable", "todo", "unimplemented"):
                repl.append((bt[i].start, bt[k].end, "rt_panic()", False))
    loops = find_loops(bt)
    attr = ""
    if loops and "isolate" not in blk.opts:
        # facts about variables a loop does not change stay available in it: proofs survive hoisted temporaries
        attr = "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"
    want = int(blk.opts.get("loops", -1))
    if want >= 0 and len(loops) != want:
        raise Lost("%s: %d loops, contract expects %d" % (path, len(loops), want))
    labels = {bt[l[3]].text for l in loops if l[4] == "block"}
    for l in loops:
        if l[4] == "block":
            # no unlabelled break/continue directly inside
            inner = [(m[1], m[2]) for m in loops if m[4] != "block" and m[0] > l[1] and m[2] < l[2]]
            for y in range(l[1], l[2]):
                if bt[y].text in ("break", "continue") and bt[y + 1].kind != "lifetime" and not any(a < y < b for a, b in inner):
                    raise Lost(path + ": unlabelled break in labelled block")
            edits.append((bt[l[1]].start, 0, "loop "))
            edits.append((bt[l[2]].start, 9, " break %s; " % bt[l[3]].text))
    if "resolve" in blk.opts:
        # ghost only: names the fact that a mutable reference is not used any more at a `return`
        for i, x in enumerate(bt):
            if x.kind == "id" and x.text == "return":
                k, d = i + 1, 0
                while k < len(bt) and not (d == 0 and bt[k].text in (",", ";", "}", ")")):
                    if bt[k].text in "([{": d += 1
                    elif bt[k].text in ")]}": d -= 1
                    k += 1
                names = [n for n in (blk.opts["resolve"] or "self").split(",") if not any(y.text == n for y in bt[i:k])]
                if not names: continue
                edits.append((x.start, 5, "{ " + "".join("assert(has_resolved(%s)); " % n for n in names)))
                edits.append((bt[k - 1].end, 0, " }"))
    for n_loop, l in enumerate(loops):
        if l[4] == "for" and any(x[0] == "loop" and int(x[1]) == n_loop + 1 for x in blk.sections):
            # names the ghost iterator of an annotated `for` loop: it1, it2, ..
            y = l[0] + 1
            while bt[y].text != "in": y += 1
            edits.append((bt[y].end, 0, " it%d: " % (n_loop + 1)))
    for kind, arg, n, text in blk.sections:
        if kind in ("spec", "subst", "sigsubst", "dropargs"): continue
        if kind == "entry":
            if probe:  # hide(..) has to come first
                m = re.match(r"\s*(?:(?:hide|reveal)\([^;]*\);\s*)*", text)
                edits.append((bt[0].end, -1, "\n" + m.group(0))); text = text[m.end():]
            edits.append((bt[0].end, 1, "\n" + text)); continue
        if kind == "exit":
            edits.append((bt[-1].start, 8, "\n" + text)); continue
        if kind in ("loop", "in", "after-loop"):
            k = int(arg)
            if k > len(loops): raise Lost("%s: no loop %d" % (path, k))
            l = loops[k - 1]
            if kind == "loop": edits.append((bt[l[1]].start, 1, "\n" + text))
            elif kind == "in": edits.append((bt[l[1]].end, 1, "\n" + text))
            else: edits.append((bt[l[2]].end, 1, "\n" + text))
            continue
        occ, ln = occurrences(bt, arg)
        if not occ or (n is None and len(occ) != 1) or (isinstance(n, int) and len(occ) < n):
            raise Lost("%s: anchor `%s` occurs %d times" % (path, arg, len(occ)))
        for o in (occ if n == "*" else [occ[(n or 1) - 1]]):
            if kind == "before": edits.append((bt[o].start, 1, "\n" + text))
            elif kind == "after": edits.append((bt[o + ln - 1].end, 1, "\n" + text))
            else: raise Lost("unknown section " + kind)
    if probe:
        edits.append((bt[0].end, 0, " assert(false); "))
    ops = [(p, 0, o, p, tx) for p, o, tx in edits] + [(s, 1, 0, e, tx) for s, e, tx, _ in repl]
    ops.sort(key=lambda z: (z[0], z[1], z[2]))
    out, pos = [], 0
    for s, _, _, e, tx in ops:
        out.append(body[pos:s]); out.append(tx); pos = max(pos, e)
    out.append(body[pos:])
    return attr + sig + "\n" + spec + "".join(out) + "\n", sig

def expand_for(text):
    """//@for A,B in x,y z,w  ...  //@endfor: the lines between are repeated with $A, $B replaced."""
    def rep(m):
        names = m.group(1).split(",")
        out = []
        for vals in m.group(2).split():
            body = m.group(3)
            for n, v in zip(names, vals.split(",")): body = body.replace("$" + n, v)
            out.append(body)
        return "".join(out)
    return re.sub(r"^//@for (\S+) in (.*)\n((?:.*\n)*?)//@endfor\n", rep, text, flags=re.M)

def parse_template(text):
    """Yields ('text', str) / ('use', path) / ('item', kind, name, opts) / ('fn', FnBlock)"""
    lines, i = expand_for(text).split("\n"), 0
    buf = []
    out = []
    def flush():
        if buf: out.append(("text", "\n".join(buf) + "\n")); buf.clear()
    while i < len(lines):
        s = lines[i].strip()
        if not s.startswith("//@"):
            buf.append(lines[i]); i += 1; continue
        flush()
        d = s[3:]
        if d.startswith("use "):
            out.append(("use", d[4:].strip())); i += 1; continue
        if d.startswith("include "):
            out.append(("include", d[8:].strip())); i += 1; continue
        if d.startswith("item "):
            m = re.match(r"item (\w+) ([^|]+?)\s*(?:\|(.*))?$", d)
            out.append(("item", m.group(1), m.group(2), (m.group(3) or "").strip())); i += 1; continue
        if d.startswith("fn "):
            spec = d[3:].split("|")
            opts = {}
            for o in (spec[1].split() if len(spec) > 1 else []):
                k, _, v = o.partition("="); opts[k] = v
            blk = FnBlock(spec[0].strip(), opts, i + 1)
            i += 1
            cur = None
            while True:
                s2 = lines[i].strip()
                if s2.startswith("//@"):
                    d2 = s2[3:]
                    if d2 == "end": break
                    m = re.match(r"(spec|entry|exit|loop|in|after-loop|before|after|subst|sigsubst|dropargs)(?:#(\d+|\*))?(?:\s+(.*))?$", d2)
                    if not m: raise ValueError("bad directive %r line %d" % (d2, i + 1))
                    n = m.group(2)
                    n = n if n == "*" else (int(n) if n else None)
                    cur = [m.group(1), (m.group(3) or "").strip(), n, ""]
                    blk.sections.append(cur)
                elif cur is not None:
                    cur[3] += lines[i] + "\n"
                elif s2:
                    raise ValueError("text before section at line %d" % (i + 1))
                i += 1
            i += 1
            out.append(("fn", blk)); continue
        raise ValueError("bad directive %r line %d" % (d, i + 1))
    flush()
    return out

def elsewhere(text, lemmas, unit, level):
    """Lemmas of a template whose proofs are checked in another unit (`proof fn`s outside traits and trait
    implementations): statement only, here. level = [brace depth, inside an inherent impl, tokens of the open header]."""
    ts = lex(text)
    at = []
    depth, inherent, head = level
    for i, t in enumerate(ts):
        if t.text == "{":
            if head[-2:] == ["verus", "!"]: head = []; continue
            if depth == 0: inherent = "impl" in head and "for" not in head; head = []
            depth += 1
        elif t.text == "}":
            depth -= 1
            if depth == 0: inherent, head = False, []
        elif t.text == "proof" and ts[i + 1].text == "fn" and (depth == 0 or depth == 1 and inherent):
            j = i
            while j and ts[j - 1].text in ("pub", "broadcast"): j -= 1
            if "proved_in(" in text[max(0, ts[j].start - 80):ts[j].start].split("\n")[-1]: continue
            at.append(ts[j].start); lemmas.append("%s: lemma %s" % (unit, ts[i + 2].text))
        elif depth == 0:
            head = [] if t.text == ";" else head + [t.text]
    level[:] = [depth, inherent, head]
    for o in reversed(at): text = text[:o] + "#[verifier::external_body] /* proved_in(%s) */ " % unit + text[o:]
    return text

def build(repo, contracts_dir, unit, degrade=(), probe=False):
    """Returns dict(text, fns=[{path,lo,hi,degraded,reason}], lost=[...], rewrites=[...])."""
    res = dict(fns=[], lost=[], rewrites=[], items=[], lemmas=[])
    chunks, line = [], 1
    def put(s):
        nonlocal line
        chunks.append(s); line += s.count("\n")
    seen = set()
    def go(tmpl, proved_in=None):
        if tmpl in seen: return  # each template once
        seen.add(tmpl)
        cur, level = None, [0, False, []]
        for el in parse_template(open(os.path.join(contracts_dir, tmpl), encoding="utf-8").read()):
            if el[0] == "text":
                res["lemmas"] += ["%s: %s" % m for m in re.findall(r"/\*@in (\w+)\*/ ((?:proof )?fn \w+)", el[1]) if m[0] != unit]
                el = ("text", re.sub(r"/\*@in (\w+)\*/", lambda m: "" if m.group(1) == unit and not probe else "#[verifier::external_body] /* proved_in(%s) */" % m.group(1), el[1]))
            if el[0] == "text": put(elsewhere(el[1], res["lemmas"], proved_in, level) if proved_in else el[1])
            elif el[0] == "include":
                w = el[1].split()
                go(w[0], dict(x.split("=") for x in w[1:]).get("proved", proved_in))
            elif el[0] == "use": cur = el[1]
            elif el[0] == "item":
                src = repo.source(cur)
                try: it = src.find(el[2], el[1])
                except KeyError as e:
                    res["lost"].append(dict(path=el[2], reason=str(e), fatal=True)); continue
                txt = strip(src, it.lo, it.hi)
                for sub in filter(None, [x.strip() for x in el[3].split(";;")]):
                    a, b = [x.strip() for x in sub.split("=>")]
                    ts = lex(txt); occ, ln = occurrences(ts, a)
                    if not occ:
                        res["lost"].append(dict(path=el[2], reason="item rewrite anchor " + a, fatal=True)); continue
                    for o in reversed(occ): txt = txt[:ts[o].start] + b + txt[ts[o + ln - 1].end:]
                    res["rewrites"].append("%s: %s => %s" % (el[2], a, b))
                put(txt + "\n")
                res["items"].append("%s %s" % (cur, el[2]))
            else:
                blk = el[1]
                elsewhere_in = blk.opts["in"] if blk.opts.get("in", unit) != unit else proved_in
                if elsewhere_in and "sig" not in blk.opts: blk.opts["trusted"] = ""
                fid = cur + "::" + blk.path.replace(" :: ", "::") + (("=>" + blk.opts["name"]) if "name" in blk.opts else "")
                lo = line
                deg = fid in degrade
                reason = None
                try:
                    if "sig" in blk.opts or not deg:
                        try:
                            txt, sig = emit_fn(repo.source(cur), blk, res["rewrites"], False, probe)
                        except Lost as e:
                            if "sig" in blk.opts: raise
                            reason = str(e); deg = True
                            txt, sig = emit_fn(repo.source(cur), blk, res["rewrites"], True)
                    else:
                        txt, sig = emit_fn(repo.source(cur), blk, res["rewrites"], True)
                    put(txt)
                    res["fns"].append(dict(path=fid, lo=lo, hi=line - 1, degraded=deg, reason=reason, sig="sig" in blk.opts, trusted="trusted" in blk.opts and not elsewhere_in, proved_in=elsewhere_in, shape=loop_shape(repo.source(cur), blk.path)))
                except Lost as e:
                    res["lost"].append(dict(path=fid, reason=str(e), fatal=True))
    go(unit + ".rs")
    res["text"] = "".join(chunks)
    return res

if __name__ == "__main__":
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("unit"); a.add_argument("--repo", default="/repo"); a.add_argument("--contracts", default="/verif/contracts"); a.add_argument("-o", default="-"); a.add_argument("--probe", action="store_true")
    n = a.parse_args()
    r = build(Repo(n.repo), n.contracts, n.unit, probe=n.probe)
    for l in r["lost"]: print("LOST", l, file=sys.stderr)
    for f in r["fns"]:
        if f["degraded"]: print("DEGRADED", f, file=sys.stderr)
    (sys.stdout if n.o == "-" else open(n.o, "w")).write(r["text"])
