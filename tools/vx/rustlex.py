"""A small Rust tokenizer and item locator (enough for mechanical extraction, not a full parser)."""
import re

class LexError(Exception):
    pass

IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0x[0-9A-Fa-f_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+(?:[iu](?:8|16|32|64|128|size))?"
                 r"|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?(?:[iuf](?:8|16|32|64|128|size))?")
MULTI = ["..=", "...", "<<=", ">>=", "->", "=>", "::", "..", "==", "!=", "<=", ">=", "&&", "||",
         "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<"]  # '>>' is left split for generics

class Tok:
    __slots__ = ("kind", "text", "start", "end")
    def __init__(self, kind, text, start, end):
        self.kind, self.text, self.start, self.end = kind, text, start, end
    def __repr__(self):
        return f"{self.kind}:{self.text}"

def lex(src):
    """Returns the significant tokens (comments and whitespace dropped, positions kept)."""
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i); i = n if j < 0 else j; continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j): depth += 1; j += 2
                elif src.startswith("*/", j): depth -= 1; j += 2
                else: j += 1
            i = j; continue
        m = re.compile(r'(?:b|c|br|cr|r)?(#*)"').match(src, i)
        if m and (c in 'bcr"'):
            pre = m.group(0)
            if "r" in pre.split('"')[0].replace("#", ""):
                close = '"' + m.group(1)
                j = src.index(close, m.end()) + len(close)
            else:
                if m.group(1):
                    raise LexError("bad string at %d" % i)
                j = m.end()
                while src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            toks.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == "'" or src.startswith("b'", i):
            k = i + (1 if c == "'" else 2)
            if src[k] == "\\":
                j = src.index("'", k + 2) + 1
                toks.append(Tok("char", src[i:j], i, j)); i = j; continue
            if k + 1 < n and src[k + 1] == "'":
                j = k + 2
                toks.append(Tok("char", src[i:j], i, j)); i = j; continue
            m = IDENT.match(src, k)
            if m:
                toks.append(Tok("lifetime", src[i:m.end()], i, m.end())); i = m.end(); continue
            raise LexError("bad quote at %d" % i)
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok("id", m.group(0), i, m.end())); i = m.end(); continue
        if c.isdigit():
            m = NUM.match(src, i)
            toks.append(Tok("num", m.group(0), i, m.end())); i = m.end(); continue
        for op in MULTI:
            if src.startswith(op, i):
                toks.append(Tok("p", op, i, i + len(op))); i += len(op); break
        else:
            toks.append(Tok("p", c, i, i + 1)); i += 1
    return toks

OPEN = {"(": ")", "[": "]", "{": "}"}

def match_close(toks, i):
    """Index of the token closing the bracket at i."""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == "p":
            if t.text in OPEN: depth += 1
            elif t.text in (")", "]", "}"):
                depth -= 1
                if depth == 0: return j
    raise LexError("unbalanced bracket")

def skip_generics(toks, i):
    """i is at '<'; returns index after the matching '>'."""
    depth = 0
    while True:
        t = toks[i]
        if t.kind == "p":
            if t.text == "<": depth += 1
            elif t.text == "<<": depth += 2
            elif t.text == ">":
                depth -= 1
                if depth == 0: return i + 1
            elif t.text in OPEN:
                i = match_close(toks, i)
        i += 1

def norm(toks):
    return " ".join(t.text for t in toks)

def norm_text(s):
    return norm(lex(s))

class Item:
    """kind: fn / struct / enum / const / impl / trait / macro_rules / other; ranges are token indices."""
    def __init__(self, kind, name, lo, hi, head=None, body=None, attrs=()):
        self.kind, self.name, self.lo, self.hi, self.head, self.body, self.attrs = kind, name, lo, hi, head, body, attrs
        self.container = None

def _impl_key(toks):
    """toks: tokens between `impl` and `{`. Returns a key such as 'TextReader for &str' or 'NameMapLookup'."""
    i = 0
    if toks and toks[0].text == "<":
        i = skip_generics(toks, 0)
    out, j = [], i
    parts = [[]]
    while j < len(toks):
        t = toks[j]
        if t.text == "where": break
        if t.text == "for" and t.kind == "id":
            parts.append([]); j += 1; continue
        if t.text in ("<",) and t.kind == "p":
            j = skip_generics(toks, j); continue
        if t.kind == "lifetime":
            j += 1; continue
        parts[-1].append(t.text); j += 1
    def last(p):
        s = " ".join(p).replace(" :: ", "::")
        return s.split("::")[-1] if "[" not in s and "(" not in s else s
    keys = [last(p) if k == 0 and len(parts) > 1 else " ".join(p) for k, p in enumerate(parts)]
    return " for ".join(keys).replace("& ", "&").replace(" ?", "")

KW_ITEM = {"fn", "struct", "enum", "impl", "trait", "mod", "use", "type", "static", "union", "macro_rules", "const", "extern", "unsafe", "async", "default", "pub"}

def items(toks, lo=0, hi=None):
    """Lists the items between token indices lo and hi (one nesting level)."""
    hi = len(toks) if hi is None else hi
    res, i = [], lo
    while i < hi:
        start = i
        attrs = []
        while i < hi and toks[i].text == "#" and toks[i + 1].text in ("[", "!"):
            j = i + 1
            if toks[j].text == "!": j += 1
            k = match_close(toks, j)
            attrs.append(norm(toks[i:k + 1])); i = k + 1
        if i >= hi: break
        vis = i
        if toks[i].text == "pub":
            i += 1
            if toks[i].text == "(": i = match_close(toks, i) + 1
        quals = i
        while toks[i].text in ("const", "unsafe", "async", "default", "extern") and toks[i + 1].text in ("fn", "unsafe", "extern", "const", "async", "impl", "trait") or (toks[i].kind == "str" and toks[i - 1].text == "extern"):
            i += 1
        kw = toks[i].text
        if kw == "fn":
            name = toks[i + 1].text
            j = i + 2
            if toks[j].text == "<": j = skip_generics(toks, j)
            while toks[j].text not in ("{", ";"):
                if toks[j].text in ("(", "["): j = match_close(toks, j)
                j += 1
            if toks[j].text == ";":
                res.append(Item("fn", name, start, j + 1, (quals, i, j), None, attrs)); i = j + 1
            else:
                k = match_close(toks, j)
                res.append(Item("fn", name, start, k + 1, (quals, i, j), (j, k), attrs)); i = k + 1
        elif kw in ("impl", "trait", "mod"):
            j = i + 1
            while toks[j].text not in ("{", ";"):
                if toks[j].text in ("(", "["): j = match_close(toks, j)
                elif toks[j].text == "<" : j = skip_generics(toks, j) - 1
                j += 1
            if toks[j].text == ";":
                res.append(Item(kw, toks[i + 1].text, start, j + 1, (quals, i, j), None, attrs)); i = j + 1
            else:
                k = match_close(toks, j)
                name = _impl_key(toks[i + 1:j]) if kw == "impl" else toks[i + 1].text
                it = Item(kw, name, start, k + 1, (quals, i, j), (j, k), attrs)
                if kw == "impl":  # second key with the type arguments: `From<Object<'a,D>> for Collection<'a,D>`
                    h = i + 1
                    if toks[h].text == "<": h = skip_generics(toks, h)
                    it.full = "".join((" " + t.text + " ") if t.text in ("for", "where") else t.text for t in toks[h:j])
                res.append(it); i = k + 1
        elif kw in ("struct", "enum", "union"):
            name, j = toks[i + 1].text, i + 2
            while toks[j].text not in ("{", ";"):
                if toks[j].text in ("(", "["): j = match_close(toks, j)
                elif toks[j].text == "<": j = skip_generics(toks, j) - 1
                j += 1
            k = j if toks[j].text == ";" else match_close(toks, j)
            res.append(Item(kw, name, start, k + 1, (quals, i, j), None, attrs)); i = k + 1
        elif kw in ("const", "static", "type", "use", "crate") or (kw == "extern" and toks[i + 1].text == "crate"):
            name, j = toks[i + 1].text, i + 1
            while toks[j].text != ";":
                if toks[j].text in OPEN: j = match_close(toks, j)
                j += 1
            res.append(Item(kw, name, start, j + 1, (quals, i, j), None, attrs)); i = j + 1
        elif i + 1 < hi and toks[i + 1].text == "!":
            j = i + 2
            name = toks[i].text
            if toks[j].kind == "id": name = "macro_rules:" + toks[j].text; j += 1
            k = match_close(toks, j)
            end = k + 1
            if end < hi and toks[end].text == ";": end += 1
            res.append(Item("macro", name, start, end, (quals, i, j), (j, k), attrs)); i = end
        else:
            raise LexError("unrecognised item at token %d: %s" % (i, norm(toks[i:i + 6])))
    return res

class Source:
    def __init__(self, path, text=None):
        self.path = path
        self.text = open(path, encoding="utf-8").read() if text is None else text
        self.toks = lex(self.text)
        self.items = items(self.toks)
        self.index = {}
        for it in self.items:
            self._add("", it)
            if it.kind in ("impl", "trait", "mod") and it.body:
                if any("cfg ( test )" in a for a in it.attrs): continue
                for sub in items(self.toks, it.body[0] + 1, it.body[1]):
                    sub.container = it
                    self._add(it.name + " :: ", sub)
                    if getattr(it, "full", it.name) != it.name: self._add(it.full + " :: ", sub)
    def _add(self, pre, it):
        self.index.setdefault(pre + it.name, []).append(it)
    def find(self, path, kind=None):
        c = [it for it in self.index.get(path, []) if kind is None or it.kind == kind]
        if len(c) != 1:
            raise KeyError("%s: %d items named `%s`" % (self.path, len(c), path))
        return c[0]
