"""Lay contracts over functions extracted from /repo's current source and run Verus.

A unit is verus/<unit>.rs: Verus text with directives, each on lines of its own:

  //@item FILE KIND NAME            copy a struct / enum / type / const item verbatim
  //@fn FILE OWNER::NAME            copy a function; what follows up to //@end is laid over it:
  //@ret NAME                       name of the result
  //@pub                            (optional) ignored
  requires ... ensures ...          contract, put between signature and body
  //@loop K                         text up to the next directive: invariants of loop K (textual order)
  //@before K / //@after K          ghost text before / after loop K
  //@top / //@bottom                ghost text at the beginning / end of the body
  //@in K / //@inend K              ghost text at the beginning / end of the body of loop K
  //@pre REGEX / //@post REGEX      ghost text before / after the only statement text matching REGEX
  OWNER::NAME/INNER                 names the function item INNER nested in NAME; it is hoisted (an item
                                    captures nothing), and NAME is copied without it
  //@end

OWNER is the type of the impl block, or - for a free function. Only the rewrites listed in
REWRITES (and a unit's own //@rewrite lines: //@rewrite REGEX => TEXT) are applied to the copied
text; each is reported. Everything else is the code that runs.
"""
import json, os, re, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")

class Lost(Exception):
    pass

def blank(s):
    """Same length text with comments, strings and chars blanked."""
    out = list(s)
    i, n = 0, len(s)
    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j); i = j
        elif s.startswith("/*", i):
            j = s.find("*/", i)
            j = n if j < 0 else j + 2
            wipe(i, j); i = j
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            wipe(i + 1, min(j, n)); i = j + 1
        elif s[i] == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(s, i)
            if m:
                wipe(i + 1, m.end() - 1); i = m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)

def close(b, i, pair="{}"):
    """Index after the bracket closing the one at i."""
    d = 0
    for k in range(i, len(b)):
        if b[k] == pair[0]:
            d += 1
        elif b[k] == pair[1]:
            d -= 1
            if d == 0:
                return k + 1
    raise Lost("unbalanced brackets")

_cache = {}
def source(f):
    p = os.path.join(REPO, f)
    if p not in _cache:
        try:
            s = open(p).read()
        except OSError:
            raise Lost("file %s is gone" % f)
        _cache[p] = (s, blank(s))
    return _cache[p]

def strip_comments(s):
    b = blank(s)
    out = []
    i = 0
    while i < len(s):
        if s.startswith("//", i) and b[i] == " ":
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
        elif s.startswith("/*", i) and b[i] == " ":
            j = s.find("*/", i)
            i = len(s) if j < 0 else j + 2
        else:
            out.append(s[i]); i += 1
    return "".join(out)

def item(f, kind, name):
    s, b = source(f)
    m = re.search(r'^(pub(\([a-z]+\))?\s+)?%s\s+%s\b' % (kind, name), b, re.M)
    if not m:
        raise Lost("%s %s not found in %s" % (kind, name, f))
    if kind in ("type", "const"):
        e = b.index(";", m.end()) + 1
    else:
        k = re.compile(r'[{;(]').search(b, m.end()).start()
        if b[k] == "(" and re.search(r'\bwhere\b', b[m.end():k]):
            k = b.index("{", k)
        if b[k] == "{":
            e = close(b, k)
        elif b[k] == "(":
            e = b.index(";", close(b, k, "()")) + 1
        else:
            e = k + 1
    text = strip_comments(s[m.start():e])
    if kind == "struct":
        text = re.sub(r'^(\s+)(\w+\s*:)', r'\1pub \2', text, flags=re.M)   # visibility only
        text = re.sub(r'^(pub\s+struct\s+\w+)\((?!pub)', r'\1(pub ', text)
    if not text.startswith("pub"):
        text = "pub " + text   # visibility only
    return text

def impls(f, owner):
    s, b = source(f)
    for m in re.finditer(r'^impl\b[^{;]*\{', b, re.M):
        head = re.sub(r'\s+', ' ', b[m.start():m.end() - 1])
        h = re.sub(r'^impl\s*(<.*?>)?\s*', '', head)
        h = h.split(" where ")[0].strip()
        if " for " in h:
            h = h.split(" for ")[1]
        if re.match(r'%s\b' % re.escape(owner), h.strip()):
            yield m.end() - 1, close(b, m.end() - 1)

def function(f, owner, name, trait=None):
    """(signature, body) texts."""
    s, b = source(f)
    spans = [(0, len(s))] if owner == "-" else list(impls(f, owner))
    for a, e in spans:
        for m in re.finditer(r'\bfn\s+%s\b' % name, b[a:e]):
            p = a + m.start()
            # depth 1 inside the impl block (or 0 for a free function)
            d = b[a:p].count("{") - b[a:p].count("}")
            if d != (0 if owner == "-" else 1):
                continue
            # start of the item: go back over pub, const, unsafe on the same line
            st = b.rfind("\n", 0, p) + 1
            i = p
            k = re.compile(r'[{;]').search(b, i)
            # generic bounds and default types contain no braces here
            if not k or b[k.start()] == ";":
                continue
            o = k.start()
            return s[st:o].strip(), s[o:close(b, o)]
    raise Lost("fn %s::%s not found in %s" % (owner, name, f))

REWRITES = [
    (r'#\[[^\]]*\]', '', "attributes"),
    (r'\bpub\(crate\)', 'pub', "visibility of crate-private items"),
    (r'\bassert!\s*\(', 'rt_assert(', "assert! -> rt_assert, whose contract requires the condition"),
    (r'Box<dyn AudioUnit>', 'Unit', "boxed units -> an opaque unit type"),
]

def balanced(s, i):
    return close(blank(s), i, "()")

def call_rewrite(s, macro, fn):
    """macro!(args) -> fn(args)"""
    while True:
        b = blank(s)
        m = re.search(r'\b%s!\s*\(' % macro, b)
        if not m:
            return s
        e = close(b, m.end() - 1, "()")
        s = s[:m.start()] + fn(s[m.end():e - 1]) + s[e:]

def split_args(a):
    b = blank(a)
    d = 0
    out, st = [], 0
    for i, c in enumerate(b):
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == "," and d == 0:
            out.append(a[st:i]); st = i + 1
    if a[st:].strip():
        out.append(a[st:])
    return [x.strip() for x in out]

def rewrite(s, extra, used):
    s = strip_comments(s)
    s0 = s
    def neg_lt(a):
        return "rt_assert(%s)" % split_args(a)[0]
    s = call_rewrite(s, "assert", neg_lt)
    s = call_rewrite(s, "assert_eq", lambda a: "rt_assert(%s == %s)" % tuple(split_args(a)[:2]))
    s = call_rewrite(s, "debug_assert", neg_lt)
    s = call_rewrite(s, "panic", lambda a: "rt_panic()")
    if s != s0:
        used.add("assert!, assert_eq!, panic! -> rt_assert / rt_panic, whose contracts require the condition (so reaching a panic fails an obligation)")
    for rx, to, why in REWRITES + extra:
        t = re.sub(rx, to, s, flags=re.S)
        if t != s:
            used.add(why)
        s = t
    return s

LOOP = re.compile(r'\b(for\s+(?!<)|while\b|loop\b)')
def loops(body):
    """Positions (start, index of the opening brace, end) of loops in textual order."""
    b = blank(body)
    out = []
    for m in LOOP.finditer(b):
        # opening brace at depth 0 of parentheses
        d = 0
        k = m.end()
        while k < len(b):
            c = b[k]
            if c in "([":
                d += 1
            elif c in ")]":
                d -= 1
            elif c == "{" and d == 0:
                break
            k += 1
        else:
            raise Lost("loop without a body")
        out.append((m.start(), k, close(b, k)))
    return out

def annotate(sig, body, spec, name):
    """Lay the contract over the function."""
    parts = {"contract": ""}
    cur = "contract"
    expect = None
    for l in spec:
        m = re.match(r'\s*//@(\w+)\s*(.*)$', l)
        if m:
            k, a = m.group(1), m.group(2).strip()
            if k == "ret":
                parts["ret"] = a; continue
            if k == "loops":
                expect = int(a); continue
            if k == "mode":
                parts["mode"] = a; continue
            cur = (k + " " + a).strip()
            parts.setdefault(cur, "")
        else:
            parts[cur] += l + "\n"
    ls = loops(body)
    idx = [int(k.split()[1]) for k in parts if re.match(r'(loop|before|after|in|inend) \d+$', k)]
    if expect is None:
        expect = max(idx) + 1 if idx else 0
    if len(ls) != expect:
        raise Lost("%s has %d loops, the contract was written for %d" % (name, len(ls), expect))
    ins = []   # (position, order, text)
    for k, v in parts.items():
        m = re.match(r'(loop|before|after|in|inend) (\d+)$', k)
        if not m:
            continue
        a, o, e = ls[int(m.group(2))]
        pos = {"loop": o, "before": a, "after": e, "in": o + 1, "inend": e - 1}[m.group(1)]
        ins.append((pos, {"inend": 0, "loop": 1, "in": 1, "before": 2, "after": 0}[m.group(1)], "\n" + v))
    for k, v in parts.items():
        m = re.match(r'(pre|post) (.*)$', k)
        if m:
            hit = list(re.finditer(m.group(2), body))
            if len(hit) != 1:
                raise Lost("%s: statement %s found %d times" % (name, m.group(2), len(hit)))
            ins.append((hit[0].start() if m.group(1) == "pre" else hit[0].end(), 4, "\n" + v))
    if "top" in parts:
        ins.append((1, 0, "\n" + parts["top"]))
    if "bottom" in parts:
        # before a trailing expression is not possible textually: bottom only for unit functions
        ins.append((len(body) - 1, 3, "\n" + parts["bottom"]))
    # Name the (once evaluated) end of each range: for x in a..b -> let end_K = b; for x in a..end_K
    bl = blank(body)
    for n, (a, o, e) in enumerate(ls):
        m = re.match(r'for\s+\w+\s+in\s+', bl[a:o])
        if m:
            r = bl[a + m.end():o]
            d, cut = 0, None
            for k in range(len(r) - 1):
                if r[k] in "([{":
                    d += 1
                elif r[k] in ")]}":
                    d -= 1
                elif r[k:k + 2] == ".." and d == 0:
                    cut = k
                    break
            if cut is not None and not r[cut + 2:].startswith("=") and r[cut + 2:].strip():
                expr = body[a + m.end() + cut + 2:o].strip()
                st = a + m.end() + cut + 2
                # replace by same-length-insensitive edits: deletion marked through an insertion list
                first = body[a + m.end():a + m.end() + cut].strip()
                if "(" in first:
                    # ... and its start, if that is a call
                    ins.append((a, 1, "let start_%d = %s; " % (n, first)))
                    ins.append((a + m.end(), 1, ("CUT", cut, "start_%d" % n)))
                ins.append((a, 1, "let end_%d = %s; " % (n, expr)))
                ins.append((st, 1, ("CUT", o - st, "end_%d " % n)))
    if "tail" in parts:
        # The trailing expression E becomes: let RET = E; ghost text; RET
        d, cut = 0, None
        for k, c in enumerate(bl):
            if c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
            elif c == ";" and d == 1:
                cut = k + 1
        if cut is None or not body[cut:-1].strip():
            raise Lost("%s no longer ends in an expression" % name)
        # skip complete blocks before the expression
        d = 0
        for k, c in enumerate(bl[:-1]):
            if c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
                rest = bl[k + 1:-1].strip()
                if c == "}" and d == 1 and k >= cut and re.match(r'[A-Za-z_(]', rest) and not rest.startswith("else"):
                    cut = k + 1
        # skip complete loops and blocks before the expression
        for a, o, e in ls:
            if a >= cut and bl[a:o].count("{") == 0 and e > cut:
                cut = max(cut, e)
        ins.append((cut, 5, "\nlet %s = " % parts.get("ret", "ret")))
        ins.append((len(body) - 1, -1, ";\n" + parts["tail"] + "\n" + parts.get("ret", "ret")))
    for pos, _, t in sorted(ins, key=lambda x: (-x[0], -x[1])):
        if isinstance(t, tuple):
            body = body[:pos] + t[2] + body[pos + t[1]:]
        else:
            body = body[:pos] + t + body[pos:]
    if "ret" in parts:
        m = re.search(r'->\s*(.*?)\s*(where\b.*)?$', sig, re.S)
        if not m:
            raise Lost("%s no longer returns a value" % name)
        sig = sig[:m.start()] + "-> (%s: %s) %s" % (parts["ret"], m.group(1), m.group(2) or "")
    return sig + "\n" + parts["contract"] + body

def decontinue(body, used):
    """for .. { A if C { continue; } B }  ->  for .. { A if C { } else { B } } (for loops take no continue in Verus)."""
    while True:
        b = blank(body)
        hit = None
        for a, o, e in loops(body):
            if not b[a:].startswith("for"):
                continue
            d = 0
            for k in range(o, e):
                if b[k] == "{":
                    m = re.match(r'\{\s*continue;\s*\}', b[k:e])
                    if d == 1 and m:
                        hit = (k, k + m.end(), e - 1)
                        break
                    d += 1
                elif b[k] == "}":
                    d -= 1
            if hit:
                break
        if not hit:
            return body
        k, r, e = hit
        body = body[:k] + "{ } else {" + body[r:e] + "}" + body[e:]
        used.add("if C { continue; } B in a for loop -> if C { } else { B }")

def nested(body, name):
    b = blank(body)
    m = re.search(r'\bfn\s+%s\b' % name, b)
    if not m:
        raise Lost("nested fn %s not found" % name)
    o = b.index("{", m.end())
    return m.start(), o, close(b, o)

def drop_nested(body, used):
    while True:
        b = blank(body)
        m = re.search(r'\bfn\s+\w+\s*[<(]', b)
        if not m:
            return body
        o = b.index("{", m.end())
        body = body[:m.start()] + body[close(b, o):]
        used.add("nested function items are hoisted to the enclosing impl")

def contract_of(unit, f, owner, name):
    """Contract text (no loop or ghost parts) that a unit lays over a function."""
    ls = open(os.path.join(ROOT, "verus", unit + ".rs")).read().splitlines()
    for i, l in enumerate(ls):
        if re.match(r'\s*//@fn %s %s::%s\s*$' % (re.escape(f), re.escape(owner), name), l):
            out = []
            for l2 in ls[i + 1:]:
                m = re.match(r'\s*//@(\w+)', l2)
                if m and m.group(1) != "ret":
                    return out
                out.append(l2)
    raise Lost("unit %s has no contract of %s" % (unit, name))

def build(unit):
    lines = open(os.path.join(ROOT, "verus", unit + ".rs")).read().splitlines()
    out, functions, used = [], [], set()
    extra = []
    for l in lines:
        m = re.match(r'\s*//@rewrite (.*?) => (.*?)(?: ## (.*))?$', l)
        if m:
            extra.append((m.group(1), m.group(2), m.group(3) or ("%s -> %s" % (m.group(1), m.group(2)))))
    i = 0
    inc = []
    while i < len(lines):
        l = lines[i]
        m = re.match(r'\s*//@include (\S+)', l)
        if m:
            sub = open(os.path.join(ROOT, "verus", m.group(1))).read().splitlines()
            lines[i:i + 1] = sub
            for l2 in sub:
                m2 = re.match(r'\s*//@rewrite (.*?) => (.*?)(?: ## (.*))?$', l2)
                if m2:
                    extra.append((m2.group(1), m2.group(2), m2.group(3) or ("%s -> %s" % (m2.group(1), m2.group(2)))))
            continue
        m = re.match(r'\s*//@assume (\S+) (\S+) (\S+)::(\w+)', l)
        if m:
            # Callee under the contract that another unit discharges.
            u2, f, owner, name = m.groups()
            spec = contract_of(u2, f, owner, name)
            sig, body = function(f, owner, name)
            sig = rewrite(sig, extra, used)
            txt = annotate(sig, "{ unimplemented!() }", spec, name)
            out.append("#[verifier::external_body] /* discharged in unit %s */\n" % u2 + txt)
            i += 1
            continue
        m = re.match(r'\s*//@item (\S+) (\w+) (\w+)', l)
        if m:
            t = item(*m.groups())
            t = rewrite(t, extra, used)
            out.append(t)
            i += 1
            continue
        m = re.match(r'\s*//@fn (\S+) (\S+)::(\w+)(?:/(\w+))?', l)
        if m:
            f, owner, name, inner = m.groups()
            spec = []
            i += 1
            while not re.match(r'\s*//@end', lines[i]):
                spec.append(lines[i]); i += 1
            i += 1
            sig, body = function(f, owner, name)
            if inner:
                a, o, e = nested(body, inner)
                sig, body = body[a:o].strip(), body[o:e]
                name = name + "/" + inner
            else:
                body = drop_nested(body, used)
            sig, body = rewrite(sig, extra, used), rewrite(body, extra, used)
            body = decontinue(body, used)
            out.append(annotate(sig, body, spec, name))
            functions.append("%s %s::%s" % (f, owner, name) if owner != "-" else "%s %s" % (f, name))
            continue
        out.append(l)
        i += 1
    return "\n".join(out) + "\n", functions, sorted(used)

def trusted_in(text):
    t = []
    for m in re.finditer(r'#\[verifier::external_body\] /\* discharged in unit (\w+) \*/\s*(?:pub\s+)?fn\s+(\w+)', text):
        t.append("verus: contract of %s assumed here, discharged in unit %s" % (m.group(2), m.group(1)))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub\s+)?(?:proof\s+)?(fn|struct)\s+(\w+)', text):
        t.append("verus: assumed contract of %s %s" % (m.group(1), m.group(2)))
    for m in re.finditer(r'\badmit\(\)|\bassume\(', text):
        t.append("verus: " + m.group(0))
    for m in re.finditer(r'assume_specification', text):
        t.append("verus: assume_specification")
    return t

REFUTES = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "possible arithmetic underflow/overflow",
           "possible division by zero", "cannot show invariant holds")
def run(unit, thorough=False, keep=False):
    t0 = time.time()
    d = os.path.join(ROOT, "build", "verus")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, unit + ".rs")
    r = dict(unit=unit, status="lost", verified=0, errors=0, functions=[], dropped=[], seconds=0.0, trusted=[], cmd="", detail="")
    try:
        text, functions, used = build(unit)
    except (Lost, ValueError, AttributeError, IndexError) as e:
        r["detail"] = "anchor lost: %s" % e
        return r
    open(path, "w").write(text)
    cmd = ["verus", path, "--rlimit", "60" if thorough else "30", "--output-json", "--time", "--multiple-errors", "3"]
    r["cmd"] = " ".join(cmd)
    r["functions"], r["dropped"], r["trusted"] = functions, used, trusted_in(text)
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=1200 if thorough else 240)
    except subprocess.TimeoutExpired:
        r["detail"] = "verus exceeded its time limit"
        r["seconds"] = time.time() - t0
        return r
    r["seconds"] = round(time.time() - t0, 1)
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
        vr = j.get("verification-results", {})
    except ValueError:
        vr, j = {}, {}
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    err = p.stderr
    if p.returncode == 0 and vr.get("success"):
        if r["verified"] == 0:
            r["detail"] = "no obligations"
        else:
            r["status"] = "ok"
        return r
    kinds = re.findall(r'^error(?:\[E\d+\])?: (.*)$', err, re.M)
    real = [k for k in kinds if not k.startswith("aborting")]
    r["detail"] = err[-20000:]
    if r["errors"] and real and all(any(k.startswith(x) for x in REFUTES) for k in real):
        # A failed loop invariant or ghost assertion alone says that the argument was lost, not that the code is wrong.
        if any(k.startswith(("postcondition not satisfied", "precondition not satisfied", "possible")) for k in real):
            r["status"] = "refuted"
        else:
            r["status"] = "lost"
    else:
        r["status"] = "lost"
    return r

if __name__ == "__main__":
    import sys
    for u in sys.argv[1:]:
        x = run(u)
        print(json.dumps({k: x[k] for k in ("unit", "status", "verified", "errors", "seconds", "functions", "dropped", "trusted")} if os.environ.get("VXV") else {k: x[k] for k in ("unit", "status", "verified", "errors", "seconds")}))
        if x["status"] != "ok":
            print(x["detail"])
