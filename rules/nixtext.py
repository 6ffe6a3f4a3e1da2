"""Text under construction, seen as Nix source: a pushdown over pieces.

A text is a tuple of pieces:
  ("lit", s)    these characters
  ("op", kind)  a piece of that kind, see KINDS
  ("st", S)     pieces read already: the state S of the reader
A state is (stack, spaced, last) or ("bad", message) or ("unk",).  The stack
holds the open brackets and quotes, each with what was seen since."""
import re

# id: an identifier; any: text nothing is known of; key: a written name; path: a written attribute path
# expr: source of any expression; atom: source of an operand; num: a number that may be negative; nat: one that is not
# float: a float as printed by C++
# raw: content of a string or a name as it is; esc*: content escaped for "..."; esci: for ''...''; interp: source of ${...}
# bind: source of bindings; file: part of a file name
KINDS = ("id", "any", "key", "path", "expr", "atom", "num", "nat", "raw", "escname", "esc", "esci", "interp", "bind", "file")
START = (("TOP", "E0"),), True, ""
TOKEN = re.compile(r"(?P<sp>\s+|/\*.*?\*/)|(?P<w>[A-Za-z_][A-Za-z0-9_'-]*)|(?P<n>[0-9]+)|(?P<dot3>\.\.\.)|(?P<fp>\.{1,2}/)|"
                   r"(?P<iq>'')|(?P<c>[\"{}()\[\]=;,.:/-])|(?P<x>.)", re.S)
EXPRS = ("TOP", "(", "=", "${")


def bad(m):
    return ("bad", m)


class Reader:
    def __init__(self, S):
        self.stack, self.sp, self.last = list(S[0]), S[1], S[2]
        self.err = None

    def state(self):
        return self.err or (tuple(self.stack), self.sp, self.last)

    def fail(self, m):
        if self.err is None:
            self.err = bad(m)

    @property
    def ctx(self):
        return self.stack[-1][0]

    @property
    def s(self):
        return self.stack[-1][1]

    def set(self, s):
        self.stack[-1] = (self.ctx, s)

    def push(self, c, s):
        if len(self.stack) > 24:
            return self.fail("brackets or quotes are opened and not closed in a loop")
        self.stack.append((c, s))

    # -- pieces -------------------------------------------------------------
    def feed(self, p):
        if self.err:
            return
        if p[0] == "st":
            S = p[1]
            if S[0] == "bad" or S[0] == "unk":
                self.err = S
                return
            k = whole(S)
            if k is None:
                self.err = ("unk",)
            elif k:
                self.kind(k)
            return
        if p[0] == "op":
            return self.kind(p[1])
        s, i = p[1], 0
        while i < len(s) and not self.err:
            i = self.text(s, i)

    def text(self, s, i):
        c = self.ctx
        if c == '"':
            if s[i] == '"':
                self.close_string()
            elif s[i] == "\\":
                self.set("x")
                return i + 2
            elif s.startswith("${", i):
                self.set("x")
                self.push("${", "E0")
                self.sp, self.last = True, ""
                return i + 2
            else:
                self.set("x")
            return i + 1
        if c == "''":
            if s.startswith("''${", i) or s.startswith("'''", i) or s.startswith("''\\", i):
                return i + 3
            if s.startswith("''", i):
                self.close_string()
                return i + 2
            if s.startswith("${", i):
                self.push("${", "E0")
                self.sp, self.last = True, ""
                return i + 2
            return i + 1
        if c == "/*":
            j = s.find("*/", i)
            if j < 0:
                return len(s)
            self.stack.pop()
            self.sp, self.last = True, ""
            return j + 2
        if s.startswith("/*", i) and s.find("*/", i + 2) < 0:
            self.push("/*", "")
            return len(s)
        m = TOKEN.match(s, i)
        t = m.group()
        if m.group("sp"):
            self.sp, self.last = True, ""
        elif m.group("x"):
            self.err = ("unk",)
        elif self.last == "path" and (m.group("w") or m.group("n") or t in "/.-"):
            pass
        elif m.group("w"):
            self.word(t)
        elif m.group("n"):
            self.operand("nat", True)
        elif m.group("dot3"):
            self.operand("id", False)
        elif m.group("fp"):
            self.operand("atom", True)
            self.last = "path"
        elif m.group("iq"):
            self.push("''", "")
        else:
            self.punct(t)
            if t not in '"{([':
                self.sp = False
            if self.last not in ("neg", "{}"):
                self.last = ""
        return m.end()

    def word(self, w):
        if self.last == "w":
            return self.fail("two words run together")
        if w == "inherit":
            if self.ctx == "TOP" and self.s in ("E0", "B") or self.ctx in ("{", "let") and self.s in ("E0", "B"):
                self.set("B")
                self.push("inh", "I0")
                self.last = "w"
                self.sp = False
                return
            return self.fail("`inherit` stands where no binding can")
        if w == "let":
            if self.ctx in EXPRS and self.s == "E0":
                self.push("let", "E0")
                self.last, self.sp = "w", False
                return
            return self.fail("`let` stands where an operand is wanted")
        if w == "in":
            if self.ctx == "let" and self.s in ("E0", "B"):
                self.stack.pop()
                self.last, self.sp = "w", False
                return
            return self.fail("`in` without a `let` before it, or a binding before it is not closed")
        if w in ("if", "then", "else", "assert", "with", "rec"):
            self.err = ("unk",)
            return
        self.operand("id", True)

    def kind(self, k):
        c = self.ctx
        if c == "/*":
            return
        if c in ('"', "''"):
            if k == "raw":
                return self.fail("the content of a string or a name is put between quotes without escaping it")
            if k in ("escname", "esc"):
                if c == "''":
                    return self.fail("text escaped for \"...\" is put into an indented string")
                self.set("name" if k == "escname" and self.s == "" else "x")
            elif k == "esci" and c == '"':
                self.fail("text escaped for an indented string is put between double quotes")
            elif k in ("expr", "node", "atom", "bind"):
                self.fail("the source of a node is put between quotes as text")
            else:
                self.set("x")
            return
        if k in ("node", "formal"):
            k = "any"
        if k == "float":
            return self.fail("a float may be written without a point, as no number Nix reads")
        if k == "raw":
            return self.fail("the content of a string or a name is written as it is where code is expected")
        if k in ("escname", "esc", "esci"):
            return self.fail("escaped text is written outside of quotes")
        if k == "interp":
            return self.operand("key", True)
        if self.last == "path" and k in ("any", "file", "id"):
            self.last = "w"
            return
        if k == "bind":
            if c in ("TOP", "{", "let") and self.s in ("E0", "B"):
                self.set("B")
                self.last = ""
                return
            return self.fail("bindings stand where an expression is wanted")
        if k == "file":
            k = "any"
        self.operand(k, k not in ("atom", "any", "paren", "sel"))

    def operand(self, k, wordy):
        """k is id, any, key, path, expr, atom, num, nat, str, namestr or fset."""
        if wordy and self.last == "w":
            return self.fail("two words run together")
        if self.last == "neg":
            k = "num"
        self.last = "w" if k in ("id", "key", "path", "expr", "num", "nat", "atom", "any") and wordy else ""
        self.sp = False
        c, s = self.stack[-1]
        keyish = k in ("id", "any", "key", "path", "namestr", "str")
        if s in ("P.", "E.", "EA."):
            if not keyish:
                return self.fail("something else than a name follows a dot")
            return self.set({"P.": "P", "E.": "ES", "EA.": "EA"}[s])
        if c == "inh":
            if s == "I0" and k == "paren" or keyish:
                return self.set("I1")
            if s == "I0" and k == "atom":
                self.err = ("unk",)         # it may have parentheses of its own
                return
            return self.fail("something else than a name is inherited")
        if c == "[":
            if k in ("expr", "num", "fset"):
                return self.fail("a list element that may need parentheses has none" if k != "num" else "a negative number is a list element without parentheses")
            return self.set("L1")
        if c in ("{", "let"):
            if s in ("E0", "B") and keyish:
                return self.set("P" if k in ("id", "any") else "Pq")
            if s == "F," and k in ("id", "any"):
                return self.set("FI")
            if s == "F,":
                return self.fail("a formal argument is written as something else than an identifier")
            return self.fail("something stands between bindings that is none")
        # expressions
        if s == "E0":
            if c == "TOP" and keyish or k in ("id", "any", "path"):
                return self.set("P" if k in ("id", "any") else "Pq")
            if k == "namestr":
                return self.fail("a name is written as a string where its value is meant")
            return self.set("EF" if k == "fset" else "EN" if k == "num" else "EX" if k == "expr" else {"paren": "EP", "sel": "ES"}.get(k, "E1"))
        if s in ("P", "Pq", "E1", "EP", "ES", "EA"):
            if k in ("expr", "num"):
                return self.fail("an argument that may need parentheses has none")
            if c == "=" and k in ("key", "namestr"):
                return self.fail("a name follows a value without a semicolon between them")
            return self.set("EA" if k != "fset" else "EF")
        if s == "B" and keyish:
            return self.set("P" if k in ("id", "any") else "Pq")
        if s == "TF":
            if k in ("id", "any"):
                return self.set("TFI")
            return self.fail("a formal argument is written as something else than an identifier")
        if s in ("EX", "EN"):
            return self.fail("something follows an expression that may need parentheses")
        self.fail("an operand stands where none can")

    def close_string(self):
        c, s = self.stack.pop()
        self.operand("namestr" if s == "name" and c == '"' else "str", False)

    def punct(self, t):
        c, s = self.stack[-1]
        if t == '"':
            if self.last == "w":
                self.last = ""
            self.push('"', "")
        elif t == "{":
            self.push("{", "E0")
        elif t == "(":
            self.push("(", "E0")
        elif t == "[":
            self.push("[", "L0")
        elif t == "}":
            if c == "${":
                if s not in ("EX", "EN", "EA", "E1", "EP", "ES", "P", "Pq"):
                    return self.fail("a bracket is closed before what it needs was written")
                self.stack.pop()
                return
            if c != "{":
                return self.fail("a closing brace without its opening one")
            if s in ("E0", "B"):
                self.stack.pop()
                if s == "E0" and self.stack[-1][1] == "E0":
                    self.operand("atom", False)
                    self.last = "{}"        # these may be formal arguments as well
                    return
                self.operand("atom", False)
            elif s in ("P", "FI", "F,"):
                self.stack.pop()
                self.operand("fset", False)
            else:
                self.fail("a brace is closed before the binding in it")
            self.last = ""
        elif t in ")]":
            if c != {")": "(", "]": "["}[t] or s not in ("EX", "EN", "EA", "E1", "EP", "ES", "P", "Pq", "L0", "L1") or c == "(" and s == "E0":
                return self.fail("a bracket is closed that is not open, or before what it needs was written")
            self.stack.pop()
            self.operand("paren" if t == ")" else "atom", False)
        elif t == "=":
            if c in ("TOP", "{", "let") and s in ("P", "Pq"):
                self.set("B")
                self.push("=", "E0")
            else:
                self.fail("`=` does not follow a name")
        elif t == ";":
            if c == "=" and s in ("E0", "EX", "EN", "EA", "E1", "EP", "ES", "P", "Pq") or c == "inh":
                self.stack.pop()
            else:
                self.fail("a semicolon that ends no binding")
        elif t == ",":
            if c == "{" and s in ("P", "FI"):
                self.set("F,")
            elif c == "TOP" and s in ("E0", "P", "TFI"):
                self.set("TF")
            else:
                self.fail("a comma that separates nothing")
        elif t == ".":
            n = {"P": "P.", "Pq": "P.", "E1": "E.", "EP": "E.", "ES": "E.", "EA": "EA."}.get(s)
            if c == "[" and s == "L1":
                return
            if n is None or c == "inh":
                return self.fail("a selection from an expression that may need parentheses" if s in ("EX", "EN") else "a dot that follows no name")
            self.set(n)
        elif t == ":":
            if s == "EF" or s == "P" and c in EXPRS or s == "E1" and self.last == "{}":
                self.set("E0")
            else:
                self.fail("a colon that follows no formal arguments")
        elif t == "-":
            if s in ("E0", "L0"):
                self.last = "neg"
            else:
                self.err = ("unk",)
        else:
            self.err = ("unk",)


def whole(S):
    """The kind of a text that is complete in itself; "" if it is empty, None if it is not complete."""
    stack = S[0]
    if len(stack) != 1:
        return None
    return {"E0": "", "P": "key", "Pq": "key", "E1": "atom", "EP": "paren", "ES": "sel", "EA": "expr", "EX": "expr", "EN": "num", "B": "bind"}.get(stack[0][1])


def read(pieces):
    r = Reader(START)
    for i, p in enumerate(pieces):
        if i == 0 and p[0] == "st":
            if p[1][0] in ("bad", "unk"):
                return p[1]
            r = Reader(p[1])
            continue
        r.feed(p)
        if r.err:
            break
    return r.state()


def fold(pieces):
    if not pieces:
        return ()
    return (("st", read(pieces)),)


def final(S):
    """Complaint about a finished text, or None."""
    if S[0] == "unk":
        return None
    if S[0] == "bad":
        return S[1]
    c, s = S[0][-1]
    if len(S[0]) > 1:
        return {'"': "a string is not closed", "''": "a string is not closed", "=": "a binding is not closed with a semicolon",
                "inh": "an `inherit` is not closed with a semicolon", "let": "a `let` has no body", "/*": "a comment is not closed"}.get(c, "a bracket is not closed")
    if s in ("P.", "E.", "EA.", "EF"):
        return "the text ends where something must follow"
    return None
