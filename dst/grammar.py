"""A stand-in for the ANTLR runtime and the parser generated from the repository's grammar.

Neither is installed and the generated parser is not in the repository, so the .g4 files of the repository are read
and interpreted: the module `antlr4` and the package `rei.format.cognilang` are provided with the contexts, accessors
and visitor the ANTLR tool would generate from them. A text the grammar does not accept is refused (the real runtime
reports it and tries to go on)."""
import builtins
import keyword
import os
import re
import sys
import types

from . import repo

DIR = os.path.join(repo.ROOT, "framework", "cognitive", "speclanguage", "src", "main", "antlr4")
RESERVED = set(keyword.kwlist) | set(dir(builtins))
EOF = "<EOF>"


class GrammarError(Exception):
    pass


class DescriptionSyntaxError(Exception):
    """what the text is refused with"""


def esc(name):
    return name + "_" if name in RESERVED else name


# ---------------------------------------------------------------- reading .g4

_TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<arrow>->)"""
                  r"""|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>\+=|[:;|()?*+=.,~])""", re.S)


def g4_tokens(text):
    i = 0
    while i < len(text):
        m = _TOK.match(text, i)
        if not m:
            raise GrammarError(f"at {text[i:i + 20]!r}")
        i = m.end()
        if m.lastgroup:
            yield m.lastgroup, m.group()
    yield "end", ""


class G4:
    """One grammar file: its imports and its rules as trees."""

    def __init__(self, text):
        self.toks = list(g4_tokens(text))
        self.i = 0
        self.imports, self.rules = [], {}
        self.fragments = set()
        self.file()

    def peek(self):
        return self.toks[self.i]

    def take(self, want=None):
        t = self.toks[self.i]
        if want is not None and t[1] != want:
            raise GrammarError(f"{want} expected, {t[1]} found")
        self.i += 1
        return t[1]

    def file(self):
        while self.peek()[1] != "grammar":
            self.take()
        self.take()
        self.name = self.take()
        self.take(";")
        while self.peek()[0] != "end":
            if self.peek()[1] == "import":
                self.take()
                self.imports.append(self.take())
                while self.peek()[1] == ",":
                    self.take()
                    self.imports.append(self.take())
                self.take(";")
                continue
            name = self.take()
            if name == "fragment":
                name = self.take()
                self.fragments.add(name)
            self.take(":")
            alts, command = self.alts()
            self.take(";")
            self.rules[name] = (alts, command)

    def alts(self):
        out, command = [self.seq()], None
        while True:
            if self.peek()[1] == "|":
                self.take()
                out.append(self.seq())
            elif self.peek()[0] == "arrow":
                self.take()
                command = self.take()
            else:
                break
        return (out[0] if len(out) == 1 else ("alt", out)), command

    def seq(self):
        out = []
        while self.peek()[1] not in ("|", ";", ")") and self.peek()[0] not in ("end", "arrow"):
            out.append(self.element())
        return out[0] if len(out) == 1 else ("seq", out)

    def element(self):
        label = None
        if self.peek()[0] == "id" and self.toks[self.i + 1][1] == "=":
            label = self.take()
            self.take("=")
        kind, t = self.peek()
        if t == "(":
            self.take()
            node, _ = self.alts()
            self.take(")")
            if label:
                node = ("lab", label, node)
        else:
            self.take()
            if kind == "lit":
                node = ("lit", re.sub(r"\\(.)", r"\1", t[1:-1]))
            elif kind == "set":
                node = ("set", t)
            elif t == ".":
                node = ("any",)
            elif kind == "id":
                node = ("ref", t)
            else:
                raise GrammarError(f"{t} not understood")
            if label:
                node = ("lab", label, node)
        while self.peek()[1] in ("?", "*", "+"):
            op = self.take()
            lazy = self.peek()[1] == "?" and op != "?" and bool(self.take())
            node = ({"?": "opt", "*": "star", "+": "plus"}[op], node, lazy)
        return node


def load(directory=None, main="CogniLang"):
    """Rules of the main grammar, then those of the imports, as ANTLR merges them."""
    directory = directory or DIR
    rules, seen = {}, set()

    def add(name):
        if name in seen:
            return
        seen.add(name)
        with open(os.path.join(directory, name + ".g4")) as f:
            g = G4(f.read())
        for k, v in g.rules.items():
            rules.setdefault(k, (v[0], "fragment" if k in g.fragments else v[1]))
        for i in g.imports:
            add(i)
    add(main)
    return rules


# ---------------------------------------------------------------- lexer

class Token:
    __slots__ = ("type", "text", "start", "line")

    def __init__(self, type, text, start, line):
        self.type, self.text, self.start, self.line = type, text, start, line

    def getText(self):
        return self.text

    def __str__(self):
        return f"[{self.text}]"


class Lexicon:
    """Longest match, the earlier rule first; literals of the parser rules come before the lexer rules."""

    def __init__(self, rules):
        self.rules = {k: v for k, v in rules.items() if k[0].isupper()}
        lits = []
        for k, (node, _) in rules.items():
            if not k[0].isupper():
                self.literals(node, lits)
        alias = {v[0][1]: k for k, v in self.rules.items() if v[0][0] == "lit"}
        self.lit_type = {l: alias.get(l, "'" + l + "'") for l in lits}
        self.cache = {}
        self.patterns = [(re.compile(re.escape(l)), t, None) for l, t in self.lit_type.items() if t[0] == "'"]
        for k, (node, command) in self.rules.items():
            if command == "fragment":
                continue
            self.patterns.append((re.compile(self.regex(k)), k, command))

    def literals(self, node, out):
        if node[0] == "lit":
            if node[1] not in out:
                out.append(node[1])
        elif node[0] in ("seq", "alt"):
            for n in node[1]:
                self.literals(n, out)
        elif node[0] == "lab":
            self.literals(node[2], out)
        elif node[0] in ("opt", "star", "plus"):
            self.literals(node[1], out)

    def regex(self, name, trail=()):
        node = self.rules[name][0]
        # R : P R*  is  P+
        if node[0] == "seq" and node[1][-1][0] == "star" and node[1][-1][1] == ("ref", name):
            return "(?:" + "".join(self.rx(n, trail + (name,)) for n in node[1][:-1]) + ")+"
        return self.rx(node, trail + (name,))

    def rx(self, node, trail):
        k = node[0]
        if k == "lit":
            return re.escape(node[1])
        if k == "set":
            return node[1]
        if k == "any":
            return "(?s:.)"
        if k == "ref":
            if node[1] in trail:
                raise GrammarError(f"lexer rule {node[1]} calls itself")
            return "(?:" + self.regex(node[1], trail) + ")"
        if k == "seq":
            return "".join(self.rx(n, trail) for n in node[1])
        if k == "alt":
            return "(?:" + "|".join(self.rx(n, trail) for n in node[1]) + ")"
        if k == "lab":
            return self.rx(node[2], trail)
        return "(?:" + self.rx(node[1], trail) + ")" + {"opt": "?", "star": "*", "plus": "+"}[k] + ("?" if node[2] else "")

    def tokens(self, text):
        i, line = 0, 1
        out = []
        while i < len(text):
            best, end = None, i
            for p, t, c in self.patterns:
                m = p.match(text, i)
                if m and m.end() > end:
                    best, end, cmd = t, m.end(), c
            if best is None:
                raise DescriptionSyntaxError(f"line {line}: {text[i:i + 10]!r}")
            if cmd != "skip":
                out.append(Token(best, text[i:end], i, line))
            line += text.count("\n", i, end)
            i = end
        out.append(Token(EOF, EOF, i, line))
        return out


# ---------------------------------------------------------------- trees and contexts

class ParseTree:
    pass


class TerminalNode(ParseTree):
    def __init__(self, symbol):
        self.symbol = symbol
        self.parentCtx = None

    def getText(self):
        return self.symbol.text

    def getSymbol(self):
        return self.symbol

    def getChildCount(self):
        return 0

    def accept(self, visitor):
        return visitor.visitTerminal(self)

    def __str__(self):
        return self.symbol.text


class ParserRuleContext(ParseTree):
    rule = None

    def __init__(self, parser=None, parent=None, invokingState=-1):
        self.parser = parser
        self.parentCtx = parent
        self.children = []
        self.start = self.stop = None

    def getChildCount(self):
        return len(self.children)

    def getChild(self, i):
        return self.children[i]

    def getChildren(self):
        return iter(self.children)

    def getText(self):
        return "".join(c.getText() for c in self.children)

    def accept(self, visitor):
        name = "visit" + self.rule[0].upper() + self.rule[1:]
        if hasattr(visitor, name):
            return getattr(visitor, name)(self)
        return visitor.visitChildren(self)


class ParseTreeVisitor:
    def visit(self, tree):
        return tree.accept(self)

    def visitChildren(self, node):
        result = self.defaultResult()
        for i in range(node.getChildCount()):
            if not self.shouldVisitNextChild(node, result):
                return result
            c = node.getChild(i)
            result = self.aggregateResult(result, c.accept(self))
        return result

    def visitTerminal(self, node):
        return self.defaultResult()

    def visitErrorNode(self, node):
        return self.defaultResult()

    def defaultResult(self):
        return None

    def aggregateResult(self, aggregate, nextResult):
        return nextResult

    def shouldVisitNextChild(self, node, currentResult):
        return True


class Machine:
    """Prediction sets and contexts of the merged grammar."""

    def __init__(self, rules):
        self.lex = Lexicon(rules)
        self.rules = {k: self.resolve(v[0]) for k, v in rules.items() if not k[0].isupper()}
        self.first, self.null = {k: set() for k in self.rules}, {k: False for k in self.rules}
        changed = True
        while changed:
            changed = False
            for k, n in self.rules.items():
                f, e = self.fe(n)
                if f - self.first[k] or e != self.null[k]:
                    self.first[k] |= f
                    self.null[k] = e
                    changed = True
        self.sets = {}
        self.classes = {k: self.context(k, n) for k, n in self.rules.items()}

    def resolve(self, node):
        k = node[0]
        if k == "lit":
            return ("tok", self.lex.lit_type[node[1]])
        if k == "ref":
            return ("tok", node[1]) if node[1][0].isupper() else ("rule", node[1])
        if k in ("seq", "alt"):
            return (k, [self.resolve(n) for n in node[1]])
        if k == "lab":
            return ("lab", esc(node[1]), self.resolve(node[2]))
        if k in ("opt", "star", "plus"):
            return (k, self.resolve(node[1]))
        raise GrammarError(f"{k} in a parser rule")

    def fe(self, node):
        k = node[0]
        if k == "tok":
            return {node[1]}, False
        if k == "rule":
            return set(self.first[node[1]]), self.null[node[1]]
        if k == "lab":
            return self.fe(node[2])
        if k == "seq":
            f = set()
            for n in node[1]:
                g, e = self.fe(n)
                f |= g
                if not e:
                    return f, False
            return f, True
        if k == "alt":
            r = [self.fe(n) for n in node[1]]
            return set().union(*[f for f, _ in r]), any(e for _, e in r)
        f, e = self.fe(node[1])
        return f, True if k != "plus" else e

    def FE(self, node):
        r = self.sets.get(id(node))
        if r is None:
            r = self.sets[id(node)] = self.fe(node)
        return r

    def counts(self, node, into):
        """how often each rule or named token can occur"""
        k = node[0]
        if k in ("tok", "rule"):
            into[node[1]] = into.get(node[1], 0) + 1
        elif k == "lab":
            self.counts(node[2], into)
        elif k == "seq":
            for n in node[1]:
                self.counts(n, into)
        elif k == "alt":
            mx = {}
            for n in node[1]:
                c = {}
                self.counts(n, c)
                for x, v in c.items():
                    mx[x] = max(mx.get(x, 0), v)
            for x, v in mx.items():
                into[x] = into.get(x, 0) + v
        else:
            c = {}
            self.counts(node[1], c)
            for x, v in c.items():
                into[x] = into.get(x, 0) + (v if k == "opt" else 2 * v)

    def labels(self, node, out):
        if node[0] == "lab":
            out.append(node[1])
            self.labels(node[2], out)
        elif node[0] in ("seq", "alt"):
            for n in node[1]:
                self.labels(n, out)
        elif node[0] in ("opt", "star", "plus"):
            self.labels(node[1], out)

    def context(self, name, node):
        cnt, labels = {}, []
        self.counts(node, cnt)
        self.labels(node, labels)
        ns = {"rule": name, **{l: None for l in labels}}
        for x, n in cnt.items():
            if x.startswith("'"):
                continue
            if x[0].isupper():
                get = lambda self, x=x: [c for c in self.children if isinstance(c, TerminalNode) and c.symbol.type == x]
            else:
                get = lambda self, x=x: [c for c in self.children if isinstance(c, ParserRuleContext) and c.rule == x]
            if n > 1:
                def acc(self, i=None, get=get):
                    r = get(self)
                    return r if i is None else (r[i] if i < len(r) else None)
            else:
                def acc(self, get=get):
                    r = get(self)
                    return r[0] if r else None
            ns[esc(x)] = acc
        ns["getRuleIndex"] = lambda self: list(self.__class__.machine.rules).index(self.rule)
        cls = type(name[0].upper() + name[1:] + "Context", (ParserRuleContext,), ns)
        cls.machine = self
        return cls


class Parser:
    machine = None

    def __init__(self, stream):
        self._toks = stream.tokens
        self._i = 0

    def _fail(self, want):
        t = self._toks[self._i]
        raise DescriptionSyntaxError(f"line {t.line}: {t.text!r} where {want} is expected")

    def _rule(self, name, parent=None):
        ctx = self.machine.classes[name](self, parent)
        ctx.start = self._toks[self._i]
        self._match(self.machine.rules[name], ctx)
        ctx.stop = self._toks[self._i - 1]
        return ctx

    def _match(self, node, ctx):
        """matches and returns the last thing matched (for labels)"""
        k = node[0]
        t = self._toks[self._i].type
        if k == "tok":
            if t != node[1]:
                self._fail(node[1])
            tok = self._toks[self._i]
            self._i += 1
            n = TerminalNode(tok)
            n.parentCtx = ctx
            ctx.children.append(n)
            return tok
        if k == "rule":
            i = len(ctx.children)
            c = self._rule(node[1], ctx)
            ctx.children.insert(i, c)
            return c
        if k == "lab":
            r = self._match(node[2], ctx)
            setattr(ctx, node[1], r)
            return r
        if k == "seq":
            r = None
            for n in node[1]:
                r = self._match(n, ctx)
            return r
        if k == "alt":
            live = [n for n in node[1] if t in self.machine.FE(n)[0]] or [n for n in node[1] if self.machine.FE(n)[1]]
            if not live:
                self._fail(" or ".join(sorted(self.machine.FE(node)[0])))
            if len(live) == 1:
                return self._match(live[0], ctx)
            at, kids, state = self._i, len(ctx.children), dict(ctx.__dict__)
            for j, n in enumerate(live):
                try:
                    return self._match(n, ctx)
                except DescriptionSyntaxError:
                    if j == len(live) - 1:
                        raise
                    self._i = at
                    del ctx.children[kids:]
                    kidlist = ctx.children
                    ctx.__dict__.clear()
                    ctx.__dict__.update(state)
                    ctx.children = kidlist
        f, e = self.machine.FE(node[1])
        r = None
        if k == "opt":
            return self._match(node[1], ctx) if t in f else None
        if k == "plus":
            r = self._match(node[1], ctx)
        while self._toks[self._i].type in f:
            r = self._match(node[1], ctx)
        return r


class FileStream:
    """The text of a file; as in the ANTLR runtime it is read whole and decoded as ASCII unless told otherwise."""

    def __init__(self, fileName, encoding="ascii", errors="strict"):
        self.fileName = fileName
        with open(fileName, "rb") as f:
            data = f.read()
        self.strdata = data.decode(encoding, errors)


class InputStream:
    def __init__(self, data):
        self.strdata = data


class CommonTokenStream:
    def __init__(self, lexer):
        self.tokenSource = lexer
        self.tokens = lexer.all()


_machines = {}


def machine(directory=None):
    d = directory or DIR
    key = tuple((f, os.path.getmtime(os.path.join(d, f))) for f in sorted(os.listdir(d)) if f.endswith(".g4"))
    if key not in _machines:
        _machines[key] = Machine(load(d))
    return _machines[key]


def install():
    """Provide antlr4 and rei.format.cognilang for the code under test."""
    m = machine()

    class CogniLangLexer:
        def __init__(self, stream):
            self._stream = stream

        def all(self):
            return m.lex.tokens(self._stream.strdata)

    ns = {"machine": m}
    for name, cls in m.classes.items():
        ns[cls.__name__] = cls
        ns[esc(name)] = lambda self, name=name: self._rule(name)
    CogniLangParser = type("CogniLangParser", (Parser,), ns)
    vns = {}
    for name in m.rules:
        vns["visit" + name[0].upper() + name[1:]] = lambda self, ctx: self.visitChildren(ctx)
    CogniLangVisitor = type("CogniLangVisitor", (ParseTreeVisitor,), vns)

    def mod(name, **kw):
        x = types.ModuleType(name)
        x.__dict__.update(kw)
        sys.modules[name] = x
        return x
    mod("antlr4", FileStream=FileStream, InputStream=InputStream, CommonTokenStream=CommonTokenStream, ParserRuleContext=ParserRuleContext,
        ParseTreeVisitor=ParseTreeVisitor, TerminalNode=TerminalNode, Token=Token)
    p = mod("rei.format.cognilang")
    p.__path__ = []
    mod("rei.format.cognilang.CogniLangLexer", CogniLangLexer=CogniLangLexer)
    mod("rei.format.cognilang.CogniLangParser", CogniLangParser=CogniLangParser)
    mod("rei.format.cognilang.CogniLangVisitor", CogniLangVisitor=CogniLangVisitor)
    return CogniLangLexer, CogniLangParser, CogniLangVisitor
