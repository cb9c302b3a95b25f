"""Let concrete code over f64 or f32 be compiled with another type of that name: its literals,
constants and conversions become calls that the type can answer."""
import re

TOKEN = re.compile(
    r"""(?P<space>\s+|//[^\n]*|/\*.*?\*/)
    |(?P<string>b?r(?P<hash>\#*)".*?"(?P=hash)|b?c?"(?:\\.|[^"\\])*")
    |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\\n])')
    |(?P<life>'\w+)
    |(?P<float>\d[\d_]*\.\d[\d_]*(?:[eE][+-]?[\d_]+)?(?:_*f(?:32|64))?|\d[\d_]*(?:[eE][+-]?[\d_]+)(?:_*f(?:32|64))?|\d[\d_]*_*f(?:32|64)\b|\d[\d_]*\.(?![\w.]))
    |(?P<int>\d\w*)
    |(?P<ident>\$?(?:r\#)?[A-Za-z_]\w*)
    |(?P<punct>::|->|=>|\.\.=|\.\.\.|\.\.|.)""",
    re.S | re.X,
)
CONST = {"NAN": "nan", "INFINITY": "infinity", "NEG_INFINITY": "neg_infinity", "MAX": "max_value", "MIN": "min_value", "EPSILON": "epsilon", "MIN_POSITIVE": "min_positive_value"}
CLOSE = {")": "(", "]": "[", "}": "{"}
KEYWORDS = {"return", "in", "if", "while", "match", "let", "else", "as", "use", "mut", "ref", "move", "break", "unsafe"}


def tokens(text):
    out = []
    at = 0
    while at < len(text):
        m = TOKEN.match(text, at)
        kind, tok = m.lastgroup, m.group()
        if kind == "hash":
            kind = "string"
        # x.0.1 is no literal
        if kind == "float" and out and out[-1][1] == ".":
            m = re.compile(r"\d+").match(text, at)
            kind, tok = "int", m.group()
        out.append((kind, tok))
        at += len(tok)
    return out


def rewrite(text, scalar):
    toks = []
    for kind, tok in tokens(text):
        if kind == "float":
            v = re.sub(r"_*f(32|64)$", "", tok)
            kind, tok = "call", f"::symrt::py::lit({v if re.search(r'[.eE]', v) else v + '.0'})"
        toks.append((kind, tok))
    code = [i for i, t in enumerate(toks) if t[0] != "space"]
    text_of = lambda j: toks[code[j]][1] if 0 <= j < len(code) else ""
    # (std::)f64::NAN
    for j in range(len(code)):
        if text_of(j) == scalar and text_of(j + 1) == "::" and text_of(j + 2) in CONST:
            first = j
            if text_of(j - 1) == "::" and text_of(j - 2) in ("std", "core"):
                first = j - 2
            call = f"<::symrt::Sym as ::symrt::py::Float>::{CONST[text_of(j + 2)]}()"
            for q in range(first, j + 3):
                toks[code[q]] = ("space", "")
            toks[code[j]] = ("call", call)
    code = [i for i, t in enumerate(toks) if t[0] != "space"]
    # EXPR as f64
    j = 0
    while j < len(code) - 1:
        if text_of(j) == "as" and text_of(j + 1) in (scalar, "$float", "$scalar", "$t", "$ty") and text_of(j - 1):
            s = start(toks, code, j)
            if s is not None:
                to = text_of(j + 1)
                a, b = code[s], code[j - 1]
                toks[a] = (toks[a][0], f"::symrt::py::cast::<_, {to}>(" + toks[a][1])
                toks[b] = (toks[b][0], toks[b][1] + ")")
                toks[code[j]] = toks[code[j + 1]] = ("space", "")
                code = [i for i, t in enumerate(toks) if t[0] != "space"]
                continue
        j += 1
    return "".join(t for _, t in toks)


def start(toks, code, j):
    """The first token of the operand that ends before code[j]."""
    i = j - 1
    while i >= 0:
        kind, tok = toks[code[i]]
        if tok and tok[-1] in CLOSE and kind == "punct":
            depth = 0
            while i >= 0:
                t = toks[code[i]]
                if t[0] == "punct" and t[1] in CLOSE:
                    depth += 1
                elif t[0] == "punct" and t[1] in CLOSE.values():
                    depth -= 1
                    if depth == 0:
                        break
                i -= 1
            if i < 0:
                return None
            if tok == "}":
                return None
            prev = toks[code[i - 1]] if i > 0 else ("", "")
            # a call or an index: what is called or indexed is part of the operand
            if (prev[0] in ("ident", "int") and prev[1] not in KEYWORDS) or prev[1] in (")", "]", "?", "!"):
                i -= 1
                continue
            if prev[1] == ">":
                return None
        elif tok == "?" or tok == "!":
            i -= 1
            continue
        elif kind not in ("ident", "int", "call", "string"):
            return None
        prev = toks[code[i - 1]] if i > 0 else ("", "")
        if prev[1] in (".", "::"):
            i -= 2
            continue
        while i > 0 and toks[code[i - 1]][1] in ("-", "*", "&", "!") and (i < 2 or not operand_end(toks[code[i - 2]])):
            i -= 1
        return i
    return None


def operand_end(t):
    return (t[0] in ("ident", "int", "call", "float", "string") and t[1] not in KEYWORDS) or t[1] in (")", "]", "}", "?")
