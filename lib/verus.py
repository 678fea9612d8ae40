"""Verus back end.  A unit (vunits/<unit>.rs) is a Verus file with holes; the holes are filled with functions and types cut
out of /repo's current source, byte for byte, with contracts inserted:

//@type FILE struct|enum NAME [derive(...)]      the item's text; attributes and doc comments dropped, derives replaced
//@const FILE NAME                               a constant
//@fn FILE "impl header" NAME                    the function's signature and body (impl header "" = free function)
//@ret r                                         names the result in the signature
//@compound                                      `x /= e;` on integers is written `x = x / (e);` (no compound form in the verifier)
//@real                                          machine floats become mathematical reals (vunits/real.rs)
//@partial                                       a panic is a rejection: the contract speaks of calls that return
//@indexed                                     `for (i, x) in e.iter().enumerate()` -> `for i in 0..e.len()` with `let x = &e[i]`
//@matched                                     `e.unwrap_or_else(|| f)` -> a match on e
//@owned                                       `mut self` -> `self` with `let mut this = self;`
//@walked                                      `for x in e` over a vector or slice -> a counted while loop
//@mapped                                      `e.iter().map(|x| b).collect()` or `.sum()`, with or without `.zip(..)` -> a counted while loop
//@taken x                                       (before //@walked) the loop over x takes the vector's elements, which are Copy, by value
//@attr #[...]                                   attribute put in front
//@sub "from" => "to"                            a textual substitution where the text occurs, listed in the evidence as something extraction changes
    requires/ensures lines
//@top                                           ghost lines put at the start of the body
//@loop N "header"                               invariant lines of the N-th loop (0-based), whose header must read so
//@loopbody N                                    ghost lines at the start of the N-th loop's body
//@loopend N                                     ghost lines at the end of the N-th loop's body
//@before "text" / //@after "text"               ghost lines before/after the statement that starts with this text
//@result "text"                                 the final expression, which starts with this text, is bound to `the_result` and ghost lines follow it
//@past "text"                                   ghost lines right after this text
//@end
"""
import json, os, re, signal, subprocess, tempfile, time

TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|b?"(?:\\.|[^"\\])*"|r#*".*?"#*|'(?:\\.[^']*|[^'\\])'|'[A-Za-z_]\w*|[A-Za-z_]\w*|\d[\w.]*?(?=\.\.|[^\w.]|\.[A-Za-z_]|$)|\s+|->|=>|::|&&|\|\||[<>=!+\-*/%&|^]=|\.\.=?|.''', re.S)


class Lost(Exception):
    pass


def tokens(text, start=0, end=None):
    pos = start
    end = len(text) if end is None else end
    while pos < end:
        m = TOKEN.match(text, pos)
        yield m.start(), m.end(), m.group()
        pos = m.end()


def code_tokens(text, start=0, end=None):
    return [(a, b, t) for a, b, t in tokens(text, start, end) if not t.isspace() and not t.startswith("//") and not t.startswith("/*")]


def squeeze(text):
    return " ".join(t for _, _, t in code_tokens(text))


def match_brace(toks, i):
    depth = 0
    while i < len(toks):
        t = toks[i][2]
        if t in "({[" and len(t) == 1:
            depth += 1
        elif t in ")}]" and len(t) == 1:
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise Lost("unbalanced braces")


def items(text):
    """top level items: (header string, token index of open brace, index of close) over the code tokens"""
    toks = code_tokens(text)
    out = []
    i = start = 0
    while i < len(toks):
        t = toks[i][2]
        if t == "{":
            j = match_brace(toks, i)
            out.append((toks, start, i, j))
            i = start = j + 1
        elif t == ";":
            i += 1
            start = i
        elif t in "([":
            i = match_brace(toks, i) + 1
        else:
            i += 1
    return toks, out


def strip_attrs(toks, a, b):
    """index of the first token in a..b after leading attributes"""
    while a < b and toks[a][2] == "#":
        k = a + 1
        if toks[k][2] == "!":
            k += 1
        a = match_brace(toks, k) + 1
    return a


def find_type(text, kind, name):
    toks, its = items(text)
    for _, s, o, c in its:
        h = strip_attrs(toks, s, o)
        words = [t for _, _, t in toks[h:o]]
        if kind in words and words[words.index(kind) + 1] == name:
            return text[toks[h][0]:toks[c][1]]
    for i in range(len(toks) - 2):          # inside a module
        if toks[i][2] == kind and toks[i + 1][2] == name and toks[i + 2][2] == "{":
            return text[toks[i][0]:toks[match_brace(toks, i + 2)][1]]
    raise Lost(f"{kind} {name} not found")


def find_const(text, name):
    m = re.search(r"\bconst\s+" + name + r"\s*:[^;]*;", text)
    if not m:
        raise Lost(f"const {name} not found")
    return "pub " + m.group()


def find_fn(text, header, name):
    """-> (text of the signature up to the body's brace, body text without the outer braces)"""
    toks, its = items(text)
    if header:
        want = squeeze(header)
        hits = []
        for _, s, o, c in its:
            h = strip_attrs(toks, s, o)
            if " ".join(t for _, _, t in toks[h:o]) == want:
                hits.append((o + 1, c))
        if not hits:
            raise Lost(f"`{header}` not found")
    else:
        hits = [(0, len(toks))]
    for lo, hi in hits:
        i = lo
        while i < hi:
            if toks[i][2] == "fn" and toks[i + 1][2] == name:
                s = i
                while s > lo and toks[s - 1][2] in ("pub", "const", ")", "crate", "(", "super"):
                    if toks[s - 1][2] == ")" and toks[s - 4][2] != "pub":
                        break
                    s -= 1
                k = i + 2
                while toks[k][2] != "{":
                    if toks[k][2] in "([" and len(toks[k][2]) == 1:
                        k = match_brace(toks, k)
                    elif toks[k][2] == ";":
                        raise Lost(f"{name} has no body")
                    k += 1
                e = match_brace(toks, k)
                return text[toks[s][0]:toks[k][0]].rstrip(), text[toks[k][1]:toks[e][0]]
            if toks[i][2] == "{" and not header:
                i = match_brace(toks, i)
            i += 1
    raise Lost(f"fn {name} not found in `{header}`")


def loops(body):
    """(keyword position, header text, position of the body's brace, position of the closing brace) per loop, in order"""
    toks = code_tokens(body)
    out = []
    for i, (a, b, t) in enumerate(toks):
        if t in ("while", "loop", "for") and not (t == "for" and i + 1 < len(toks) and toks[i + 1][2] == "<"):
            k = i + 1
            while toks[k][2] != "{":
                if toks[k][2] in "([" and len(toks[k][2]) == 1:
                    k = match_brace(toks, k)
                k += 1
            e = match_brace(toks, k)
            out.append((a, " ".join(x[2] for x in toks[i:k]), toks[k][0], toks[e][0]))
    return out


def name_result(sig, r):
    toks = code_tokens(sig)
    depth = 0
    for i, (a, b, t) in enumerate(toks):
        if t in "([" and len(t) == 1:
            depth += 1
        elif t in ")]" and len(t) == 1:
            depth -= 1
        elif t == "->" and depth == 0:
            ty_end = len(sig)
            for a2, b2, t2 in toks[i + 1:]:
                if t2 == "where":
                    ty_end = a2
                    break
            return sig[:b] + f" ({r}: {sig[b:ty_end].strip()})" + (" " + sig[ty_end:] if ty_end < len(sig) else "")
    raise Lost("no result type to name")


REALS = {"f64", "Real", "Decimal", "Time", "Rate", "Spread", "DiscountFactor", "Volatility", "Probability"}


def as_reals(text):
    """Machine floats read as mathematical reals: `f64` -> `Real`, `1.5` -> `lit(15, 10)`, `e as f64` -> `int_to_real((e) as i128)`,
    `x.round() as Integer` -> `x.round().to_i32()`."""
    toks = list(tokens(text))
    out = []
    i = 0
    while i < len(toks):
        a, b, t = toks[i]
        if re.match(r"\d", t) and (("." in t) or re.match(r"\d[\d_]*[eE]", t) or t.endswith("f64")) and not t.startswith("0x"):
            lit = t.replace("_", "").removesuffix("f64")
            if lit[-1] in "eE" and i + 2 < len(toks) and toks[i + 1][2] in "+-":
                lit += toks[i + 1][2] + toks[i + 2][2]
                i += 2
            man, _, ex = lit.lower().partition("e")
            whole, _, frac = man.partition(".")
            n, d = int(whole + frac), 10 ** len(frac)
            e = int(ex or 0)
            n, d = (n * 10 ** e, d) if e >= 0 else (n, d * 10 ** -e)
            while d > 1 and n % 10 == 0 and d % 10 == 0:
                n, d = n // 10, d // 10
            out.append(f"lit({n}, {d})")
        elif t == "f64":
            out.append("Real")
        else:
            out.append(t)
        i += 1
    text = "".join(out)
    # casts, one at a time
    while True:
        toks = code_tokens(text)
        for i, (a, b, t) in enumerate(toks):
            if t != "as" or i + 1 >= len(toks):
                continue
            ty = toks[i + 1][2]
            k = postfix_start(toks, i - 1)
            expr = text[toks[k][0]:toks[i - 1][1]]
            if ty in REALS:
                text = text[:toks[k][0]] + f"int_to_real(({expr}) as i128)" + text[toks[i + 1][1]:]
                break
            m = re.search(r"\.\s*(round|floor|ceil|trunc)\s*\(\s*\)$", expr)
            if m and ty in ("Integer", "i32"):
                text = text[:toks[k][0]] + f"{expr}.to_i32()" + text[toks[i + 1][1]:]
                break
        else:
            return text


def postfix_start(toks, k):
    """index of the first token of the postfix expression that ends with token k"""
    while True:
        if toks[k][2] in (")", "]"):
            depth = 0
            while True:
                if toks[k][2] in (")", "]"):
                    depth += 1
                if toks[k][2] in ("(", "["):
                    depth -= 1
                    if depth == 0:
                        break
                k -= 1
            if k > 0 and re.match(r"[A-Za-z_]\w*$|[)\]]$", toks[k - 1][2]) and toks[k - 1][2] not in ("return", "if", "while", "in", "match", "else"):
                k -= 1
                continue
        if k > 0 and toks[k - 1][2] in (".", "::"):
            k -= 2
            continue
        return k


def as_matches(text):
    """`e.unwrap_or_else(|| f)` -> `match e { Some(v) => v, None => f }` (a closure has no contract of its own)"""
    while True:
        toks = code_tokens(text)
        for i, (a, b, t) in enumerate(toks):
            if t == "unwrap_or_else" and toks[i - 1][2] == "." and toks[i + 1][2] == "(" and toks[i + 2][2] == "||":
                k, e = postfix_start(toks, i - 2), match_brace(toks, i + 1)
                f = text[toks[i + 3][0]:toks[e - 1][1]]
                text = text[:toks[k][0]] + f"(match {text[toks[k][0]:toks[i - 2][1]]} {{ Some(the_value) => the_value, None => {f} }})" + text[toks[e][1]:]
                break
        else:
            return text


def as_rejections(text):
    """A panic is the rejection of the call: `assert!(c, ..)` -> `reject_unless(c)`, `panic!(..)` -> `reject()`."""
    while True:
        toks = code_tokens(text)
        for i, (a, b, t) in enumerate(toks):
            if t in ("assert", "assert_eq", "panic", "todo", "unimplemented") and toks[i + 1][2] == "!":
                e = match_brace(toks, i + 2)
                if t in ("panic", "todo", "unimplemented"):
                    text = text[:a] + "reject()" + text[toks[e][1]:]
                    break
                k, commas = i + 3, []
                while k < e and len(commas) < (2 if t == "assert_eq" else 1):
                    if toks[k][2] in "([{" and len(toks[k][2]) == 1:
                        k = match_brace(toks, k)
                    elif toks[k][2] == ",":
                        commas.append(k)
                    k += 1
                if commas and k == commas[-1] + 1:
                    k -= 1
                if t == "assert_eq":
                    c = commas[0]
                    text = text[:a] + "reject_unless(" + text[toks[i + 3][0]:toks[c - 1][1]] + " == " + text[toks[c + 1][0]:toks[k - 1][1]] + ")" + text[toks[e][1]:]
                    break
                text = text[:a] + "reject_unless(" + text[toks[i + 3][0]:toks[k - 1][1]] + ")" + text[toks[e][1]:]
                break
        else:
            return text


def as_indexed(text):
    """`for (i, x) in e.iter().enumerate() {` -> `for i in 0..e.len() { let x = &e[i];` (iterator adapters have no contract in the verifier)"""
    text = re.sub(r"for \((\w+), (\w+)\) in ([\w.]+)\.iter\(\)\.enumerate\(\) \{", r"for \1 in 0..\3.len() { let \2 = &\3[\1];", text)
    text = re.sub(r"for (\w+) in ([\w.]+)\.iter\(\) \{", r"for \1_i in 0..\2.len() { let \1 = &\2[\1_i];", text)
    while m := re.search(r"for (\w+) in ([\w.]+)\.iter_mut\(\) \{", text):
        # a cursor that is only written and read through: the element is taken out, worked on and put back
        x, e = m.groups()
        toks = code_tokens(text)
        o = next(k for k, t in enumerate(toks) if t[0] == m.end() - 1)
        c = toks[match_brace(toks, o)][0]
        body = re.sub(r"\*\s*" + x + r"\b", x, text[m.end():c])
        if re.search(r"\b(break|continue|return)\b", body):
            raise Lost("a cursor loop that leaves early")
        text = text[:m.start()] + f"for {x}_i in 0..{e}.len() {{ let mut {x} = {e}[{x}_i];" + body + f"{e}[{x}_i] = {x};" + text[c:]
    return text


def as_walked(text, taken=()):
    """`for x in e {` over a vector or slice -> a counted loop (the verifier has no contract for these iterators, or none that admits `continue`)"""
    def f(m):
        if ".." in m.group(2):
            return m.group(0)
        x, e = m.group(1), m.group(2)
        ref = "" if x in taken and not re.search(r"&|\.iter\(", m.group(0)) else "&"
        return f"let mut {x}_i: usize = 0; while {x}_i < {e}.len() {{ let {x} = {ref}{e}[{x}_i]; {x}_i = {x}_i + 1;"
    return re.sub(r"for (\w+) in &?([A-Za-z_][\w.]*?)(?:\.iter\(\))? \{", f, text)


def as_mapped(text):
    """`e.iter().map(|x| b).collect()` -> a counted loop that pushes b, `.sum()` one that adds b; `e.iter().zip(f.iter()).map(|(x, y)| b)` alike
    (closures over iterators have no contract in the verifier)"""
    head = re.compile(r"([A-Za-z_][\w.]*?)(\.clone\(\))?\s*\.iter\(\)\s*(?:\.zip\(\s*&?([\w.]+?)(?:\.iter\(\))?\s*\)\s*)?\.map\(\|\s*(\w+|\(\w+, \w+\))\s*\|")
    while m := head.search(text):
        toks = code_tokens(text)
        o = next(k for k, t in enumerate(toks) if t[0] == text.rindex("(", 0, text.rindex("|", 0, text.rindex("|", 0, m.end()))))
        c = match_brace(toks, o)
        end = re.compile(r"\s*\.(collect|sum)(?:::<[^>]*>)?\(\)").match(text, toks[c][1])
        if not end:
            raise Lost("an iterator chain with another end")
        e, _, f, x = m.groups()
        body = text[m.end():toks[c][0]].strip()
        if (f is None) != (not x.startswith("(")) or body.startswith("{"):
            raise Lost("an iterator chain of another form")
        cond = f"mapped_i < {e}.len()" + (f" && mapped_i < {f}.len()" if f else "")
        if f:
            a, b = x.strip("()").split(", ")
            takes = f"let {a} = {e}[mapped_i]; let {b} = {f}[mapped_i];"
        else:
            takes = f"let {x} = {e}[mapped_i];"
        if end.group(1) == "collect":
            r = f"{{ let mut mapped: Vec<Real> = Vec::new(); let mut mapped_i: usize = 0; while {cond} {{ {takes} mapped_i = mapped_i + 1; mapped.push({body}); }} mapped }}"
        else:
            r = f"{{ let mut mapped = Real::default(); let mut mapped_i: usize = 0; while {cond} {{ {takes} mapped_i = mapped_i + 1; mapped = mapped + ({body}); }} mapped }}"
        text = text[:m.start()] + r + text[end.end():]
    return text


def build(verif, repo, unit, stub=(), smoke=False):
    src = open(os.path.join(verif, "vunits", unit + ".rs")).read().split("\n")
    out, fns, types, subs = [], [], [], []
    i = 0

    def repo_text(f):
        return open(os.path.join(repo, f)).read()

    while i < len(src):
        l = src[i]
        s = l.strip()
        if s.startswith("//@include "):
            inc = open(os.path.join(verif, "vunits", s.split()[1])).read().split("\n")
            src[i:i + 1] = inc
            continue
        if s.startswith("//@type "):
            m = re.match(r"//@type (\S+) (struct|enum) (\w+)(?: (derive\(.*\)))?$", s)
            f, kind, name, derive = m.groups()
            t = find_type(repo_text(f), kind, name)
            t = re.sub(r"(?m)^(\s*)(\w+\s*:)", r"\1pub \2", t) if kind == "struct" else t
            t = re.sub(r"(?m)^\s*///?.*\n", "", t)
            t = re.sub(r"\bf64\b", "Real", t)
            if not t.startswith("pub"):
                t = "pub " + t
            if derive:
                out.append("#[" + derive + "]")
            out += t.split("\n")
            types.append(f"{kind} {name} ({f})")
            i += 1
            continue
        if s.startswith("//@const "):
            _, f, name = s.split()
            out.append(find_const(repo_text(f), name))
            types.append(f"const {name} ({f})")
            i += 1
            continue
        if not s.startswith("//@fn "):
            assert not s.startswith("//@"), f"{unit}: stray directive {s}"
            out.append(l)
            i += 1
            continue
        m = re.match(r'//@fn (\S+) "(.*)" (\w+)$', s)
        f, header, name = m.groups()
        sig, body = find_fn(repo_text(f), header, name)
        key = (header.replace("impl ", "") + "::" if header else "") + name
        attrs, spec, inserts = [], [], []        # inserts: (position in body, order, text)
        ls = loops(body)
        ret = None
        cur = spec
        mode = None
        pending = []
        i += 1
        nloop = 0
        mysubs = []
        closures = []
        compound = real = False
        taken = []
        while src[i].strip() != "//@end":
            t = src[i].strip()
            if t.startswith("//@ret "):
                ret = t.split()[1]
            elif t == "//@compound":
                compound = True
            elif t.startswith("//@taken "):
                taken += t.split()[1:]
            elif t == "//@real":
                real = True
                sig, body = as_reals(sig), as_reals(body)
                ls = loops(body)
                subs.append(f"{key}: machine floats are read as mathematical reals")
            elif t == "//@partial":
                body = as_rejections(body)
                ls = loops(body)
                subs.append(f"{key}: a panic (assert!, panic!) is a call that does not return")
            elif t == "//@owned":
                if "mut self" in [" ".join(x[2] for x in code_tokens(sig)[k:k + 2]) for k in range(len(code_tokens(sig)))]:
                    sig = re.sub(r"\bmut\s+self\b", "self", sig, count=1)
                    body = " let mut this = self;" + "".join("this" if x == "self" else x for _, _, x in tokens(body))
                    ls = loops(body)
                    subs.append(f"{key}: `mut self` -> `self`, `let mut this = self` (the verifier has no `mut self`)")
            elif t == "//@matched":
                body2 = as_matches(body)
                if body2 != body:
                    subs.append(f"{key}: `e.unwrap_or_else(|| f)` -> `match e {{ Some(v) => v, None => f }}`")
                body = body2
                ls = loops(body)
            elif t == "//@indexed":
                body2 = as_indexed(body)
                if body2 != body:
                    subs.append(f"{key}: a loop over an iterator -> `for i in 0..e.len()` with `x = &e[i]` (`iter_mut`: the element is copied, worked on and stored back)")
                body = body2
                ls = loops(body)
            elif t == "//@mapped":
                body2 = as_mapped(body)
                if body2 != body:
                    subs.append(f"{key}: an iterator chain `.iter().map(|x| b).collect()` (or `.sum()`, with `.zip`) -> a counted loop over the elements by value")
                body = body2
                ls = loops(body)
            elif t == "//@walked":
                body2 = as_walked(body, taken)
                if body2 != body:
                    subs.append(f"{key}: `for x in e` -> a counted loop with `x = &e[i]`")
                body = body2
                ls = loops(body)
            elif t.startswith("//@attr "):
                attrs.append(t[8:])
            elif t.startswith("//@sub "):
                mm = re.match(r'//@sub "(.*)" => "(.*)"$', t)
                mysubs.append(mm.groups())
            elif t.startswith("//@closure "):
                # //@closure T -> U: the contract (over ARG and the_value) of the next closure passed to a call
                cur = []
                closures.append((t[len("//@closure "):].strip(), cur))
            elif t.startswith("//@top"):
                cur = []
                pending.append(("top", None, cur))
            elif t.startswith("//@loop"):
                mm = re.match(r'//@(loop|loopbody|loopend) (\d+)(?: "(.*)")?$', t)
                cur = []
                pending.append((mm.group(1), (int(mm.group(2)), mm.group(3)), cur))
                if mm.group(1) == "loop":
                    nloop += 1
            elif t.startswith("//@before ") or t.startswith("//@after ") or t.startswith("//@past ") or t.startswith("//@result "):
                mm = re.match(r'//@(before|after|past|result) "(.*)"$', t)
                cur = []
                pending.append((mm.group(1), mm.group(2), cur))
            else:
                cur.append(src[i])
            i += 1
        i += 1
        trusted_fn = any("external_body" in a for a in attrs)
        if key in stub:
            body = " unimplemented!() "
            attrs.append("#[verifier::external_body]")
            trusted_fn = False
            pending = []
            ls = []
        else:
            if nloop != len(ls):
                raise Lost(f"{key}: {len(ls)} loops where the contract knows {nloop}", key)
        toks = code_tokens(body)
        if smoke and key not in stub and not trusted_fn:
            if not any(k == "top" for k, _, _ in pending):
                pending.append(("top", None, []))
            pending = [(k, a, l + ["        assert(false);"] if k == "top" else l) for k, a, l in pending]
        for kind, arg, lines in pending:
            text = "\n" + "\n".join(lines) + "\n"
            if kind == "top":
                inserts.append((0, text))
            elif kind.startswith("loop"):
                n, head = arg
                a, h, o, c = ls[n]
                if head is not None and squeeze(as_reals(head) if real else head) != h:
                    raise Lost(f"{key}: loop {n} reads `{h}`", key)
                if kind == "loop":
                    inserts.append((o, text))
                elif kind == "loopbody":
                    inserts.append((o + 1, text))
                else:
                    inserts.append((c, text))
            else:
                want = [x[2] for x in code_tokens(as_reals(arg) if real else arg)]
                hit = [k for k in range(len(toks)) if [x[2] for x in toks[k:k + len(want)]] == want]
                if len(hit) != 1:
                    raise Lost(f"{key}: anchor `{arg}` found {len(hit)} times", key)
                if kind == "result":
                    inserts.append((toks[hit[0]][0], "let the_result = "))
                    inserts.append((len(body), ";" + text + "the_result\n"))
                elif kind == "before":
                    inserts.append((toks[hit[0]][0], text))
                elif kind == "past":
                    inserts.append((toks[hit[0] + len(want) - 1][1], text))
                else:
                    k = hit[0]
                    while toks[k][2] != ";":
                        if toks[k][2] in "([{" and len(toks[k][2]) == 1:
                            k = match_brace(toks, k)
                        k += 1
                    inserts.append((toks[k][1], text))
        for pos, text in sorted(inserts, key=lambda x: -x[0]):
            body = body[:pos] + text + body[pos:]
        for x, y in mysubs:
            if key in stub:
                continue
            if x not in body and x not in sig:
                # written over several lines
                loose = re.compile(r"\s*".join(re.escape(w) for w in x.split()))
                if " ." not in x or not loose.search(body):
                    continue
                body = loose.sub(lambda m: y, body)
            body, sig = body.replace(x, y), sig.replace(x, y)
            subs.append(f"{key}: `{x}` -> `{y}`")
        if closures and key not in stub:
            # a closure passed straight to a call is bound to a variable first, and gets its contract there
            if "LIFTED_CLOSURES;" not in body:
                raise Lost(f"{key}: no place for the closures", key)
            at = body.index("LIFTED_CLOSURES;")
            lets, tail = [], body[at:]
            def lift(m):
                if len(lets) >= len(closures):
                    raise Lost(f"{key}: more closures than the contract knows", key)
                k = len(lets)
                head, spec = closures[k]
                lets.append(f"let closure_{k} = |{m.group(2)}: {head.split(' -> ')[0]}| -> (the_value: {head.split(' -> ')[1]})\n" + "\n".join(spec).replace("ARG", m.group(2)) + "\n{ " + m.group(3) + " };")
                return m.group(1) + f"closure_{k}"
            tail = re.sub(r"([(,]\s*)\|(\w+)\|\s*([\w.]+\([^()|;{}]*\))(?=\s*[,)])", lift, tail)
            if len(lets) != len(closures):
                raise Lost(f"{key}: {len(lets)} closures where the contract knows {len(closures)}", key)
            body = body[:at] + tail.replace("LIFTED_CLOSURES;", "\n".join(lets), 1)
            subs.append(f"{key}: a closure passed to a call is bound to a variable first")
        if compound and key not in stub:
            # the verifier has no compound `/=` and `%=` on signed integers: the same statement is written out
            body2 = re.sub(r"([A-Za-z_][\w.]*)\s*([/%])=\s*([^;{}]+);", r"\1 = \1 \2 (\3);", body)
            if body2 != body:
                subs.append(f"{key}: `x /= e` -> `x = x / (e)`")
                body = body2
        if ret:
            sig = name_result(sig, ret)
        out += attrs
        first = len(out) + 1
        out += (sig + "\n" + "\n".join(spec) + "\n{" + body + "}").split("\n")
        fns.append(dict(key=key, file=f, first=first, last=len(out), trusted=trusted_fn))
    return "\n".join(out) + "\n", fns, types, subs


TOOLISH = re.compile(r"rlimit|resource limit|not supported|unsupported|cannot find|mismatched types|expected|loop must have", re.I)


def start_smoke(verif, repo, builddir, unit, stub):
    """The vacuity run, beside the run proper: one error per query is all it needs."""
    try:
        stext, sfns, _, _ = build(verif, repo, unit, stub, smoke=True)
    except Lost:
        return None
    spath = os.path.join(builddir, f"{unit}_smoke.rs")
    open(spath, "w").write(stext)
    err = tempfile.TemporaryFile("w+")
    proc = subprocess.Popen(["verus", spath, "--output-json", "--multiple-errors", "0", "--num-threads", "4", "--rlimit", "40"],
                            stdout=subprocess.DEVNULL, stderr=err, cwd=builddir, start_new_session=True)
    return proc, err, stext, sfns, spath


def stop(smoke):
    if smoke and smoke[0].poll() is None:
        try:
            os.killpg(smoke[0].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        smoke[0].wait()


def run(verif, repo, builddir, unit, timeout):
    t0 = time.time()
    path = os.path.join(builddir, f"{unit}.rs")
    notes, stub, lost = [], set(), {}
    base = dict(cmd=f"verus {unit}.rs (extracted from the current source by lib/verus.py)", output="", contracts=[], trusted=[], notes=notes,
                solver=0.0, vcs=0, functions=[])
    for attempt in range(8):
        try:
            text, fns, types, subs = build(verif, repo, unit, stub)
        except Lost as e:
            if len(e.args) > 1 and e.args[1] not in stub:
                stub.add(e.args[1])
                lost[e.args[1]] = e.args[0]
                continue
            base["functions"] = [dict(name="(whole unit)", status="undecided", detail="extraction lost its anchor: " + str(e.args[0]))]
            notes.append("extraction: " + str(e.args[0]))
            return base
        open(path, "w").write(text)
        cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "1", "--num-threads", "4", "--rlimit", "40"]
        smoke = start_smoke(verif, repo, builddir, unit, stub)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(5, timeout - (time.time() - t0)),
                               cwd=builddir)
        except subprocess.TimeoutExpired:
            stop(smoke)
            base["functions"] = [dict(name=f["key"], status="undecided", detail="timeout") for f in fns]
            return base
        errs = parse_errors(p.stderr, path)
        try:
            d = json.loads(p.stdout[p.stdout.index("{"):])
        except Exception:
            d = {}
        vr = d.get("verification-results") or {}
        base["output"] = p.stderr + "\n" + json.dumps(vr)
        if vr.get("success") or (vr and not vr.get("encountered-vir-error") and vr.get("verified", 0) + vr.get("errors", 0) > 0
                                 and all(not e["tool"] for e in errs)):
            break
        stop(smoke)
        # a construct beyond the verifier: keep the contracts of the functions concerned, trust nothing about them
        bad = set()
        for e in errs:
            for f in fns:
                if any(f["first"] <= n <= f["last"] for n in e["lines"]) and f["key"] not in stub:
                    bad.add(f["key"])
                    lost[f["key"]] = e["msg"]
        if not bad:
            base["functions"] = [dict(name="(whole unit)", status="undecided", detail="verifier rejects the unit: " + p.stderr[:300])]
            return base
        stub |= bad
    # vacuity: with `assert(false)` at its start every function must fail
    vacuous = set()
    if vr.get("success") and smoke:
        try:
            proc, err, stext, sfns, spath = smoke
            proc.wait(timeout=max(5, timeout - (time.time() - t0)))
            err.seek(0)
            hit = [n for e in parse_errors(err.read(), spath) for n in e["lines"]]
            sl = stext.split("\n")
            for f in sfns:
                has = any("assert(false);" in sl[k - 1] for k in range(f["first"], min(f["last"], len(sl)) + 1))
                if has and not any(f["first"] <= n <= f["last"] for n in hit):
                    vacuous.add(f["key"])
        except subprocess.TimeoutExpired:
            notes.append("the vacuity check did not finish")
    stop(smoke)
    times = {}
    smt = (d.get("times-ms") or {}).get("smt") or {}
    for mod in smt.get("smt-run-module-times") or []:
        for fb in mod.get("function-breakdown") or []:
            times.setdefault(fb["function"].split("::")[-1], []).append((fb.get("success"), fb.get("time", 0)))
    base["solver"] = (smt.get("smt-run") or 0) / 1000.0
    failed = {}
    generic = []
    for e in errs:
        own = [f["key"] for f in fns if any(f["first"] <= n <= f["last"] for n in e["primary"])] or \
              [f["key"] for f in fns if any(f["first"] <= n <= f["last"] for n in e["lines"])]
        if own:
            failed.setdefault(own[0], []).append(e["msg"] + " @ " + e["where"])
        else:
            generic.append(e["msg"] + " @ " + e["where"])
    for f in fns:
        k = f["key"]
        if f["trusted"]:
            notes.append(f"{k}: contract assumed here, not proved (external_body)")
            continue
        if k in stub:
            st, det = "undecided", "beyond the verifier on this tree: " + lost.get(k, "")
        elif k in failed:
            det = "; ".join(failed[k])
            st = "undecided" if all(re.search(r"rlimit|Resource limit|timed out", x) for x in failed[k]) else "fail"
        elif k in vacuous:
            st, det = "undecided", "vacuous: the contract's precondition cannot be met"
        else:
            st, det = "ok", ""
        base["functions"].append(dict(name=k, status=st, detail=det, seconds=0))
    nlem = vr.get("verified", 0) + vr.get("errors", 0) - len([f for f in fns if f["key"] not in stub and not f["trusted"]])
    base["vcs"] = vr.get("verified", 0) + vr.get("errors", 0)
    if generic:
        base["functions"].append(dict(name="(specification lemmas)", status="undecided", detail="; ".join(generic)[:600]))
    elif nlem > 0:
        base["functions"].append(dict(name=f"({nlem} lemmas and stated functions)", status="ok", detail=""))
    # what is trusted: mechanical scan
    for m in re.finditer(r"(assume\(|admit\(|external_body|external_type_specification|assume_specification|axiom|uninterp)[^\n]*", text):
        line = text[text.rfind("\n", 0, m.start()) + 1:text.find("\n", m.end() if m.end() < len(text) else m.start())].strip()
        nxt = text[m.end():m.end() + 200].strip().split("\n")[0] if line.startswith("#[") else ""
        base["trusted"].append(f"{unit}: {line[:140]} {nxt[:140]}".strip())
    base["contracts"] = [f"{f['key']} ({f['file']})" for f in fns]
    for x in subs:
        notes.append("extraction substitutes " + x)
    return base


def parse_errors(stderr, path):
    out = []
    blocks = re.split(r"\n(?=error)", "\n" + stderr)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n")[0]
        if head.startswith("error: aborting due to") or "previous error" in head:
            continue
        msg = re.sub(r"^error(\[\w+\])?: ", "", head)
        prim = [int(x) for x in re.findall(r"--> [^\n]*?:(\d+):\d+", b)]
        lines = [int(x) for x in re.findall(r"(?m)^\s*(\d+)\s*\|", b)]
        # the statement marked as failing
        code = re.search(r"(?m)^\s*\d+\s*\|\s*(.*)$", b)
        verif = re.search(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|decreases not satisfied|not satisfied|rlimit|Resource limit|requires not|could not prove|constructed value may fail|unable to prove|possible bit shift|recommendation not met|index out of bounds|unreachable|assert_by|loop invariant", b, re.I)
        tool = bool(re.match(r"error\[E\d+\]", head)) or not verif
        out.append(dict(msg=msg, where=(code.group(1)[:100] if code else ""), lines=lines + prim, primary=prim, tool=tool))
    return out
